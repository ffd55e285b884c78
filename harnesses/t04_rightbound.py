from symx.tl import *
from symx.runner import harness, meta

meta("T04",
     bounds="right-bound indices of 1-4 (quick) or up to 6 (thorough) consecutive periods of frequencies 15min, h, D, MS, QS, YS (and anchored) anywhere in 2003-2030, timezone-naive or Europe/Berlin, start of day 00:00 and 06:00; frequency set, or not set (at least 3 timestamps; 2 for unanchored frequencies); (quarter)hours with missing or repeated hours in both variants (A, B)",
     outside="more than 6 (quarter)hours in not localised indices with missing or repeated hours (or with the DST transition in the first period); other time zones; gaps")


def cfgs(tier):
    out = []
    for tz in (None, BERLIN):
        for f in ("15min", "h", "D", "MS", "QS", "QS-FEB", "YS", "YS-FEB"):
            for s in ("00:00", "06:00") if f == "D" or tier == "thorough" and rank(f) > 2 else ("00:00",):
                for setf in (True, False):
                    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6):
                        if n == 1 and not setf or n == 2 and not setf and "-" in f:
                            continue
                        out.append(dict(freq=f, tz=tz, sod=s, setfreq=setf, n=n))
    return out


@harness("T04", cfgs, engine="T", budget=60)
def left(ctx, c):
    f = c["freq"]
    sod = dt.time.fromisoformat(c["sod"])
    i = index(ctx, "i", f, c["n"], c["tz"], sod=sod, setfreq=c["setfreq"])
    got = tools.righttoleft.index(i)
    outs(ctx, "left", got)
    ctx.check(len(got) == c["n"], "length")
    for k in range(min(c["n"], len(got))):
        check(ctx, same(got[k], ref_plus(i[k], f, -1)), f"left bound [{k}]")
    if c["setfreq"]:
        ctx.check(got.freq is None or got.freq == i.freq, "frequency")


def naive(ctx, xs):
    """wall time, without time zone"""
    if ctx.symbolic:
        return [SymStamp(*lift(x).wall(), None) for x in xs]
    return [x.tz_localize(None) for x in xs]


@harness("T04", lambda t: [dict(freq=f, how=h, n=n, month=m) for f, ns in (("h", (4, 5)), ("15min", (4, 6))) for h in "AB" for m in (3, 10) for n in (ns if t == "thorough" else ns[:1])], engine="T", budget=60)
def local(ctx, c):
    """local time without time zone: hours are missing (repeated) at the start (end) of DST"""
    f, n = c["freq"], c["n"]
    i = index(ctx, "i", f, n, BERLIN)
    real = not ctx.symbolic
    s0 = lift(i[0])
    ctx.assume(And(s0.m == c["month"], s0.d >= 24))  # other days have no transition
    bounds = [*i, ref_plus(i[-1], f, 1, real)]
    exp = naive(ctx, i)
    right = [ref_plus(x, f, 1, real) for x in exp] if c["how"] == "A" else naive(ctx, bounds[1:])
    if c["how"] == "B":
        ctx.assume(same(right[0], ref_plus(exp[0], f, 1)))
    ri = SymIndex(right, None, None) if ctx.symbolic else pd.DatetimeIndex(right)
    got = tools.righttoleft.index(ri, c["how"])
    outs(ctx, "left", got)
    ctx.check(len(got) == n, "length")
    for k in range(min(n, len(got))):
        check(ctx, same(got[k], exp[k]), f"left bound [{k}]")
