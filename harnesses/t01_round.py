from symx.tl import *
from symx.runner import harness, meta

meta("T01",
     bounds="any timestamp (nanosecond resolution) in 2003-2030, timezone-naive or in Europe/Berlin (both DST transitions); frequencies 15min, h, D, MS, QS (3 anchors), YS (4 anchors); start of day 00:00, 06:00, 09:15, 23:45; future -30 to 30",
     outside="other time zones; start of day between 02:00 and 03:00 in time zones with DST (ambiguous or non-existing at transitions)")

SODS = ("00:00", "06:00", "09:15", "23:45")


def cfgs(tier):
    out = []
    for tz in (None, BERLIN):
        for k, f in enumerate(ALL):
            for j, s in enumerate(SODS):
                if rank(f) < 2 and s not in ("00:00", "09:15"):
                    continue
                if tier == "quick" and rank(f) >= 2 and j not in (0, 1 + k % 3):
                    continue
                out.append(dict(freq=f, tz=tz, sod=s))
    return out


def sodarg(c):
    t = dt.time.fromisoformat(c["sod"])
    return t, (None if c["sod"] == "00:00" else t)


@harness("T01", cfgs, engine="T", budget=60)
def current(ctx, c):
    """latest start on or before; earliest on or after"""
    f = c["freq"]
    sod, arg = sodarg(c)
    x = stamp(ctx, "ts", c["tz"])
    fl = tools.floor.stamp(x, f, start_of_day=arg)
    ce = tools.ceil.stamp(x, f, start_of_day=arg)
    out(ctx, "floor", fl)
    out(ctx, "ceil", ce)
    for nm, r in (("floor", fl), ("ceil", ce)):
        check(ctx, lift(r).tzn == c["tz"], f"{nm}: timezone")
        check(ctx, is_bound(r, f, sod), f"{nm}: is start of period")
    check(ctx, le(fl, x), "floor on or before")
    check(ctx, lt(x, ref_plus(fl, f, 1)), "floor: no later start")
    check(ctx, le(x, ce), "ceil on or after")
    check(ctx, lt(ref_plus(ce, f, -1), x), "ceil: no earlier start")
    b = tools.isboundary.stamp(x, f, arg)
    b = b.e if hasattr(b, "e") else bool(b)
    ctx.out("isboundary", b)
    check(ctx, If(is_bound(x, f, sod), b, Not(b)), "boundary check")
    check(ctx, If(b, And(same(fl, x), same(ce, x)), Not(Or(same(fl, x), same(ce, x)))), "timestamps on boundary are kept")


@harness("T01", lambda t: [c for c in cfgs(t) if c["sod"] in ("00:00", "06:00") or rank(c["freq"]) >= 2 and t != "quick"], engine="T", budget=60)
def future(ctx, c):
    """periods after (before) that"""
    f = c["freq"]
    sod, arg = sodarg(c)
    x = stamp(ctx, "ts", c["tz"], (2006, 2027))
    lim = 25 if f == "D" else 40
    k = ctx.int("future", -lim, lim)
    kk = mkint(k) if isz(k) else k
    for nm, fn in (("floor", tools.floor.stamp), ("ceil", tools.ceil.stamp)):
        now, fut = fn(x, f, 0, arg), fn(x, f, kk, arg)
        out(ctx, nm, fut)
        check(ctx, same(fut, ref_plus(now, f, k)), f"{nm}: as many periods later")


def index_cfgs(tier):
    out = []
    pairs = [("15min", "h", 3), ("15min", "D", 3), ("15min", "MS", 2), ("h", "D", 3), ("h", "QS", 2), ("D", "MS", 3), ("D", "QS-FEB", 2),
             ("D", "YS", 2), ("MS", "QS", 3), ("MS", "QS-MAR", 3), ("MS", "YS-FEB", 3), ("QS", "YS", 3), ("QS-FEB", "YS-FEB", 3),
             ("MS", "D", 2), ("D", "D", 2), ("YS", "MS", 2)]
    for k, (a, b, n) in enumerate(pairs):
        for tz in (None, BERLIN):
            for s in ("00:00", "06:00"):
                if tier == "thorough" or (k + (tz is None) + (s == "00:00")) % 2:
                    out.append(dict(i=a, freq=b, n=n, tz=tz, sod=s))
    return out


@harness("T01", index_cfgs, engine="T", budget=60)
def whole_index(ctx, c):
    """boundary check of all timestamps in an index; start of day is that of the first"""
    sod = dt.time.fromisoformat(c["sod"])
    i = index(ctx, "i", c["i"], c["n"], c["tz"], sod=sod)
    if rank(c["i"]) < 2:
        ctx.assume(lift(i[0]).h != 2)
    got = tools.isboundary.index(i, c["freq"])
    outs(ctx, "i", i)
    vals = [boolval(x) for x in seriesvals(got)]
    ctx.check(len(vals) == c["n"], "length")
    s0 = lift(i[0])
    for k, x in enumerate(i):
        s = lift(x)
        if rank(c["i"]) < 2 <= rank(c["freq"]):
            e = And(s.h == s0.h, s.r == s0.r, is_date_bound(s, c["freq"]))
        elif rank(c["freq"]) <= rank(c["i"]):
            e = True
        else:
            e = is_bound(x, c["freq"], sod)
        check(ctx, If(e, vals[k], Not(vals[k])), f"boundary[{k}]")
