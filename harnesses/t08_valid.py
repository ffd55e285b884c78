from symx.tl import *
from symx.runner import harness, meta

meta("T08",
     bounds="indices with a frequency (15min, h, D, MS, QS, YS, QS and YS also with other anchors) and any start (minute resolution, some nanosecond resolution) in 2003-2030, timezone-naive or Europe/Berlin, of 1-3 (daily or longer), 1-49 (hours) or 1-96 (quarterhours) timestamps",
     outside="other time zones; longer indices")


def cfgs(tier):
    out = []
    for tz in (None, BERLIN):
        for f in ("D", "MS", "QS", "QS-FEB", "QS-DEC", "YS", "YS-MAR", "YS-OCT"):
            for n in (1, 2) if tier == "quick" else (1, 2, 4):
                if tier == "quick" and n == 1 and "-" in f:
                    continue
                out.append(dict(freq=f, n=n, tz=tz))
        out.append(dict(freq="D", n=1, tz=tz, res="ns"))
        out.append(dict(freq="h", n=24, tz=tz, res="ns"))
        if tier == "thorough":
            out += [dict(freq=f, n=n, tz=tz, res="ns") for f, n in (("D", 3), ("h", 48), ("15min", 96))]
        for n in (1, 23, 24, 25) if tier == "quick" else (1, 2, 12, 23, 24, 25, 47, 48, 49):
            out.append(dict(freq="h", n=n, tz=tz))
        for n in (1, 4) if tier == "quick" else (1, 2, 4, 48, 92, 96, 100):
            out.append(dict(freq="15min", n=n, tz=tz))
        if tier == "quick":
            out.append(dict(freq="15min", n=96, tz=tz))
    return out


@harness("T08", cfgs, engine="T", budget=90)
def accepted(ctx, c):
    """accepted if and only if it consists of full, consecutive delivery periods and full days"""
    f, n, tz = c["freq"], c["n"], c["tz"]
    if rank(f) >= 3:
        x = bound(ctx, "x", f, tz)
        s = lift(x)
        h, mi = ctx.int("x_h", 0, 23), ctx.int("x_mi", 0, 59)
        if tz:
            ctx.assume(h != 2)
        x = x.replace(hour=mkint(h) if isz(h) else h, minute=mkint(mi) if isz(mi) else mi)
    else:
        x = stamp(ctx, "x", tz, res=c.get("res", "min"))
        if tz and f == "D":
            ctx.assume(lift(x).h != 2)
    els = [x, *(ref_plus(x, f, k, not ctx.symbolic) for k in range(1, n))]
    if ctx.symbolic:
        i = SymIndex(els, None, tz)
        i._freq = pd.tseries.frequencies.to_offset(f)
    else:
        i = pd.DatetimeIndex(els, freq=f)
    s, e = lift(x), ref_plus(els[-1], f, 1)
    full = s.r == 0
    if rank(f) < 2:
        full = And(full, s.h == e.h, s.r == e.r)
    try:
        tools.standardize.assert_index_standardized(i)
        ok = True
    except AssertionError:
        ok = False
    ctx.out("accepted", ok)
    check(ctx, full if ok else Not(full), "accepted if and only if valid")


@harness("T08", lambda t: [dict(freq=f, tz=tz) for f in ("2h", "30min", "5min", "min", "2D", "B", "W", "W-MON", "2MS", "ME", "2QS", "QE", "2YS", "YE", None) for tz in (None, BERLIN)], engine="T")
def other_frequencies(ctx, c):
    """frequencies that are not supported are refused, whenever the (valid) period starts"""
    x = bound(ctx, "x", "D", c["tz"])
    f = c["freq"]
    if ctx.symbolic:
        i = SymIndex([x], None, c["tz"])
        i._freq = None if f is None else pd.tseries.frequencies.to_offset(f)
    else:
        i = pd.DatetimeIndex([x])
        if f is not None:
            i._data._freq = pd.tseries.frequencies.to_offset(f)
    got = raises(lambda: tools.standardize.assert_index_standardized(i), (AssertionError, ValueError))
    ctx.out("refused", got)
    check(ctx, got, "frequency refused")


@harness("T08", lambda t: [dict(freq=f, n=n) for f in ("D", "MS", "QS-FEB", "YS") for n in (2, 3)], engine="T")
def times_of_day(ctx, c):
    """daily or longer periods that do not all start at the same time of day (e.g. after conversion from UTC) are refused"""
    f, n = c["freq"], c["n"]
    x = bound(ctx, "x", f, "UTC")
    els = [x, *(ref_plus(x, f, k, not ctx.symbolic) for k in range(1, n))]
    if ctx.symbolic:
        els = [y.tz_convert(BERLIN) for y in els]
        i = SymIndex(els, None, BERLIN)
        i._freq = pd.tseries.frequencies.to_offset(f)
    else:
        i = els = pd.DatetimeIndex(els, freq=f).tz_convert(BERLIN)
    ss = [lift(y) for y in els]
    same_time = And(*(And(a.h == ss[0].h, a.r == ss[0].r) for a in ss))
    got = raises(lambda: tools.standardize.assert_index_standardized(i), AssertionError)
    ctx.out("refused", got)
    check(ctx, same_time if not got else Not(same_time), "refused if and only if times of day differ")
