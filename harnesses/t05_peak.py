from symx.tl import *
from symx.runner import harness, meta

meta("T05",
     bounds="peak periods with any start and end on a (quarter)hour and 5 sets of weekdays; any quarterhour, hour or day in 2003-2030 (indices of 1-3), timezone-naive or Europe/Berlin; hours that start at any quarterhour; histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="peak periods across midnight; other time zones; longer indices")

DAYS = [[1, 2, 3, 4, 5], [6, 7], [1, 2, 3, 4, 5, 6, 7], [3], [7]]


def cfgs(tier):
    out = []
    for tz in (None, BERLIN):
        for f in ("15min", "h", "D"):
            for kind in ("hours", "quarters", "left", "right", "none"):
                for k, days in enumerate(DAYS):
                    if kind == "none" and len(days) == 7:
                        continue
                    if tier == "quick" and (k + len(kind) + (tz is None)) % 3:
                        continue
                    if tier == "quick" and tz and kind == "quarters" and len(days) != 7:
                        continue
                    n = 1 if f == "D" or tier == "quick" and len(days) < 7 else 2
                    out.append(dict(freq=f, tz=tz, kind=kind, days=days, n=n))
    return out


@harness("T05", cfgs, engine="T", budget=60)
def classify(ctx, c):
    kind, f = c["kind"], c["freq"]
    step = 15 if kind == "quarters" else 60
    i = index(ctx, "i", f, c["n"], c["tz"])
    l = sym_time(ctx, "left", step) if kind in ("hours", "quarters", "left") else None
    r = sym_time(ctx, "right", step) if kind in ("hours", "quarters", "right") else None
    us = lambda t: 0 if t is None else tsym.time_us(t)
    lu, ru = us(l), us(r)
    whole = And(lu == 0, ru == 0)
    # nothing to distinguish: refused
    never = And(ru != 0, lu >= ru)
    if ctx.branch(simp(Or(never, whole) if len(c["days"]) == 7 else never)):
        ctx.check(raises(lambda: tools.peakfn.factory(l, r, c["days"]), ValueError), "no special cases: refused")
        return
    fn = tools.peakfn.factory(l, r, c["days"])
    hourly = And(imod(lu, 3600 * 10**6) == 0, imod(ru, 3600 * 10**6) == 0)
    ok = True if f == "15min" else hourly if f == "h" else whole
    if not ctx.branch(simp(ok)):
        ctx.check(raises(lambda: fn(i), ValueError), "periods too long for this peak period: refused")
        return
    vals = [boolval(x) for x in seriesvals(fn(i))]
    ctx.check(len(vals) == c["n"], "length")
    for k, x in enumerate(i):
        s = lift(x)
        t = (s.h * HOUR + s.r) / 1000 if isz(s.t) else s.t // 1000
        wd = isoweekday(s.y, s.m, s.d)
        e = And(Or(*(wd == d for d in c["days"])), t >= lu, Or(ru == 0, t < ru))
        ctx.out(f"peak {k}", simp(vals[k]))
        check(ctx, If(e, vals[k], Not(vals[k])), f"peak or offpeak [{k}]")


@harness("T05", lambda t: [dict(freq=f, tz=tz, n=n) for f in ("15min", "h") for tz in (None, BERLIN) for n in ((1,) if t == "quick" else (1, 2, 3))], engine="T", budget=60)
def german(ctx, c):
    """the peak hours of the german power market"""
    i = index(ctx, "i", c["freq"], c["n"], c["tz"])
    vals = [boolval(x) for x in seriesvals(pf.germanpower_peakfn(i))]
    for k, x in enumerate(i):
        s = lift(x)
        e = And(isoweekday(s.y, s.m, s.d) <= 5, s.h >= 8, s.h < 20)
        ctx.out(f"peak {k}", simp(vals[k]))
        check(ctx, If(e, vals[k], Not(vals[k])), f"peak or offpeak [{k}]")


@harness("T05", lambda t: [dict(tz=tz, n=n, days=d) for tz in (None, BERLIN) for n, d in ((1, [1, 2, 3, 4, 5]), (2, [6, 7]), (1, None))[slice(None, 2 if t == "quick" else None)]], engine="T", budget=60)
def partly(ctx, c):
    """hours that do not start on the full hour: refused if the peak period starts or ends in one of them"""
    n = c["n"]
    x = stamp(ctx, "x", c["tz"], res="15min")
    i = [x, *(ref_plus(x, "h", k, not ctx.symbolic) for k in range(1, n))]
    if c["tz"]:
        for y in i:
            ctx.assume(lift(y).h > 3)
    if ctx.symbolic:
        i = SymIndex(i, None, c["tz"])
        i._freq = pd.tseries.frequencies.to_offset("h")
    else:
        i = pd.DatetimeIndex(i, freq="h")
    l, r = sym_time(ctx, "left", 60), sym_time(ctx, "right", 60)
    lu, ru = tsym.time_us(l), tsym.time_us(r)
    ctx.assume(Or(And(ru == 0, lu > 0), lu < ru))
    fn = tools.peakfn.factory(l, r, c["days"]) if c["days"] else tools.peakfn.factory(l, r)  # default: workdays
    days = c["days"] or [1, 2, 3, 4, 5]
    H = 3600 * 10**6
    ts = []
    for y in i:
        s = lift(y)
        ts.append((s.h * HOUR + s.r) / 1000 if isz(s.t) else s.t // 1000)
    bad = Or(*(And(b != 0, t < b, b < t + H) for t in ts for b in (lu, ru)))
    if ctx.branch(simp(bad)):
        ctx.check(raises(lambda: fn(i), ValueError), "partly peak: refused")
        return
    vals = [boolval(v) for v in seriesvals(fn(i))]
    for k, (y, t) in enumerate(zip(i, ts)):
        s = lift(y)
        wd = isoweekday(s.y, s.m, s.d)
        e = And(Or(*(wd == d for d in days)), t >= lu, Or(ru == 0, t < ru))
        ctx.out(f"peak {k}", simp(vals[k]))
        check(ctx, If(e, vals[k], Not(vals[k])), f"peak or offpeak [{k}]")


@harness("T05", lambda t: [dict(days=d) for d in ([], [0, 8], [1, 2, 3])], engine="T", budget=60)
def invalid(ctx, c):
    """no days with peak period, or times that are not on the quarterhour: refused"""
    k, m = ctx.int("left", 0, 24 * 60 - 1), ctx.int("right", 0, 24 * 60 - 1)
    l, r = ((tsym.SymTime(v * 60 * 10**6) if ctx.symbolic else dt.time(v // 60, v % 60)) for v in (k, m))
    round_ = And(imod(k, 15) == 0, imod(m, 15) == 0)
    ok = And(round_, Or(m == 0, k < m)) if c["days"] == [1, 2, 3] else False
    got = raises(lambda: tools.peakfn.factory(l, r, c["days"]), ValueError)
    ctx.out("refused", got)
    check(ctx, ok != got if not isz(ok) else If(ok, not got, got), "refused iff not round or without peak")


@harness("T05", lambda t: [dict(tzs=z, freq=f) for z in (("UTC", BERLIN), (BERLIN, "UTC"), (None, BERLIN), (BERLIN, None)) for f in (("h",) if t == "quick" else ("h", "15min"))], engine="T", budget=60, max_paths=2500)
def history(ctx, c):
    """the same function on a second index; also if that covers the same instants in another timezone"""
    f = c["freq"]
    fn = tools.peakfn.factory(dt.time(8), None, [1, 2, 3, 4, 5])
    for j, tz in enumerate(c["tzs"]):
        i = index(ctx, f"i{j}", f, 1, tz)
        vals = [boolval(x) for x in seriesvals(fn(i))]
        ctx.check(len(vals) == 1, "length")
        s = lift(i[0])
        e = And(isoweekday(s.y, s.m, s.d) <= 5, s.h >= 8)
        ctx.out(f"peak {j}", simp(vals[0]))
        check(ctx, If(e, vals[0], Not(vals[0])), f"peak or offpeak [{j}]")
