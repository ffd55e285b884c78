from symx.tl import *
from symx.runner import harness, meta

meta("T03",
     bounds="any period of frequencies 15min, h, D, MS, QS (3 anchors), YS (3 anchors) in 2003-2030, timezone-naive or Europe/Berlin; start of day 00:00, 06:00, 23:45; indices of 1-3 periods (quarterhours up to 8)",
     outside="other time zones; start of day between 02:00 and 03:00 in time zones with DST")


def cfgs(tier):
    out = []
    for tz in (None, BERLIN):
        for f in ALL:
            for s in ("00:00", "06:00", "23:45") if rank(f) >= 2 else ("00:00",):
                for n in (1, 3) if tier == "quick" else (1, 2, 3, 5):
                    if tier == "quick" and n == 1 and s != "06:00":
                        continue
                    out.append(dict(freq=f, tz=tz, sod=s, n=n))
    return out


@harness("T03", cfgs, engine="T", budget=60)
def tile(ctx, c):
    """periods follow each other; duration is the elapsed time"""
    f = c["freq"]
    sod = dt.time.fromisoformat(c["sod"])
    i = index(ctx, "i", c["n"] and f, c["n"], c["tz"], sod=sod)
    right = tools.right.index(i)
    outs(ctx, "right", right)
    check(ctx, len(right) == c["n"], "length")
    ctx.check(right.name == "right", "name")
    ctx.check(right.freq == i.freq, "frequency")
    durs = seriesvals(tools.duration.index(i))
    for k in range(c["n"]):
        nx = ref_plus(i[k], f, 1)
        check(ctx, same(right[k], nx), f"right bound [{k}]")
        if k + 1 < c["n"]:
            check(ctx, same(right[k], i[k + 1]), f"period {k} ends when the next one starts")
        x = tools.right.stamp(i[k], f)
        out(ctx, f"right stamp {k}", x)
        check(ctx, same(x, nx), f"right bound of timestamp [{k}]")
        ns = hours_ns(i[k], nx)
        d = tools.duration.stamp(i[k], f)
        for nm, h in (("index", durs[k]), ("stamp", float(d.to("h").magnitude))):
            ctx.out(f"duration {nm} {k}", float(h))
            check(ctx, ns == round(float(h) * 3600) * SEC, f"duration of {nm} [{k}]")


@harness("T03", lambda t: [dict(freq=f, tz=tz, sod=s) for f in ALL for tz in (None, BERLIN) for s in (("00:00",) if t == "quick" else ("00:00", "06:00"))], engine="T", budget=60)
def from_duration(ctx, c):
    """the frequency is recognised by the time between start and end"""
    x = bound(ctx, "x", c["freq"], c["tz"], sod=dt.time.fromisoformat(c["sod"]))
    y = bound_next(ctx, x, c["freq"])
    got = tools.freq.from_tdelta(y - x)
    ctx.out("freq", got)
    ctx.check(got == parse_freq(c["freq"])[0], "frequency")


def bound_next(ctx, x, f):
    return ref_plus(x, f, 1, not ctx.symbolic)


@harness("T03", lambda t: [dict(tz=None)], engine="T", budget=60)
def from_any_duration(ctx, c):
    """any time between timestamps: a frequency, or an error if none has periods of that length"""
    k = ctx.int("minutes", 1, 400 * 24 * 60)
    td = tsym.SymTD(k * MIN) if ctx.symbolic else pd.Timedelta(k, "min")
    h = k
    D = 24 * 60
    exp = {"15min": k == 15, "h": k == 60, "D": And(k >= 23 * 60, k <= 25 * 60), "MS": And(k >= 28 * D - 60, k <= 31 * D + 60),
           "QS": And(k >= 90 * D - 60, k <= 92 * D + 60), "YS": And(k >= 365 * D - 60, k <= 366 * D + 60)}
    try:
        got = tools.freq.from_tdelta(td)
    except ValueError:
        got = None
    ctx.out("freq", got)
    for f, cond in exp.items():
        if got != f:
            check(ctx, Not(cond), f"length of {f} not recognised")
        else:
            # tolerance: less than 2 days shorter or longer than any period of the frequency
            lo, hi = {"15min": (15, 15), "h": (60, 60), "D": (23 * 60, 25 * 60), "MS": (27 * D, 32 * D), "QS": (88 * D, 93 * D), "YS": (364 * D, 367 * D)}[f]
            check(ctx, And(k >= lo, k <= hi), f"taken for {f}")
