import itertools

from symx.tl import *
from symx.runner import harness, meta

meta("T10",
     bounds="all pairs of the 28 frequencies (15min, h, D, MS, and QS and YS with each of the 12 anchors); boundaries at any timestamp (nanosecond resolution) in 2003-2030, timezone-naive or Europe/Berlin, start of day 00:00 and 06:00; durations of any two periods in 2003-2030; lists of up to 5 frequencies in every order",
     outside="frequencies that are not supported for portfolio lines, other than those listed (multiples, weeks, business days, period ends)")

MONTHS = ("JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC")
EVERY = ("15min", "h", "D", "MS", *(f"QS-{m}" for m in MONTHS), *(f"YS-{m}" for m in MONTHS))
BARE = {"QS": "QS-JAN", "YS": "YS-JAN", "QS-JAN": "QS", "YS-JAN": "YS"}
_N = {}


def nests(a, b):
    """every start of a period b is the start of a period a (decided by z3, with the reference calendar)"""
    key = a, b
    if key not in _N:
        v = [z3.Int(n) for n in ("ny", "nm", "nd", "nh", "nr")]
        y, m, d, h, r = v
        x = SymStamp(y, m, d, h, r, None, 0, 0, None)
        s = z3.Solver()
        s.add(y >= 2003, y <= 2030, m >= 1, m <= 12, d >= 1, d <= dim(y, m), h >= 0, h <= 23, r >= 0, r < HOUR)
        s.add(is_bound(x, b), Not(is_bound(x, a)))
        res = s.check()
        if res == z3.unknown:
            raise RuntimeError("no answer")
        _N[key] = res == z3.unsat
    return _N[key]


def compare(a, b):
    try:
        return tools.freq.up_or_down(a, b)
    except ValueError:
        return "refused"


def nest_cfgs(tier):
    out = []
    for k, a in enumerate(EVERY):
        for tz, s in ((None, "00:00"), (BERLIN, "06:00"), (BERLIN, "00:00"), (None, "06:00")):
            if tier == "quick" and (tz, s) != ((None, "00:00") if k % 2 else (BERLIN, "06:00")):
                continue
            out.append(dict(freq=a, tz=tz, sod=s))
    return out


@harness("T10", nest_cfgs, engine="T", budget=200)
def nesting(ctx, c):
    """comparison of two frequencies against the boundaries that are found for them"""
    a = c["freq"]
    t = dt.time.fromisoformat(c["sod"])
    arg = None if c["sod"] == "00:00" else t
    x = stamp(ctx, "x", c["tz"])
    ba = boolval(tools.isboundary.stamp(x, a, arg))
    ctx.out("boundary", ba)
    for b in EVERY:
        bb = boolval(tools.isboundary.stamp(x, b, arg))
        down, up = If(bb, ba, True), If(ba, bb, True)  # starts of b are starts of a; v.v.
        got = compare(a, b)
        ctx.out(f"{a} {b}", str(got))
        if got != "refused":
            ctx.check(got in (-1, 0, 1), f"{b}: kind of result")
        if got in (-1, 0):
            check(ctx, down, f"{b}: each period consists of full periods {a}")
        if got in (1, 0):
            check(ctx, up, f"each period {a} consists of full periods {b}")
        if got == "refused":
            ctx.check(not nests(a, b) and not nests(b, a), f"{b}: refused without reason")
        else:
            ctx.check((got == 0) == (nests(a, b) and nests(b, a)), f"{b}: same")
        back = compare(b, a)
        ctx.check(back == (got if got == "refused" else -got), f"{b}: reverse comparison")
        for a2, b2 in ((BARE.get(a), b), (a, BARE.get(b)), (BARE.get(a), BARE.get(b))):
            if a2 and b2:
                ctx.check(compare(a2, b2) == got, f"{a2}, {b2}: same as {a}, {b}")


def ok(fn, *a, **k):
    try:
        fn(*a, **k)
        return True
    except AssertionError:
        return False


UNITS = ("15min", "h", "D", "MS", "QS", "YS")
ANCH = {"QS": ("QS", "QS-FEB", "QS-DEC"), "YS": ("YS", "YS-FEB", "YS-DEC")}


def length_cfgs(tier):
    out = []
    for k, (u, v) in enumerate(itertools.combinations(UNITS, 2)):
        for a in ANCH.get(u, (u,)):
            for b in ANCH.get(v, (v,)):
                if tier == "quick" and (a not in (u, "QS-FEB") or b not in (v, "YS-FEB")):
                    continue
                for tz in (None, BERLIN) if tier != "quick" else (BERLIN,):
                    out.append(dict(short=a, long=b, tz=tz))
    return out


@harness("T10", length_cfgs, engine="T", budget=100)
def length(ctx, c):
    """the frequency considered longer has longer periods, wherever they are"""
    a, b = c["short"], c["long"]
    p, q = bound(ctx, "p", a, c["tz"]), bound(ctx, "q", b, c["tz"])
    dp, dq = tools.duration.stamp(p, a), tools.duration.stamp(q, b)
    dp, dq = (round(float(d.to("h").magnitude) * 4) for d in (dp, dq))
    ctx.out("p", dp)
    ctx.out("q", dq)
    # reference: elapsed time of both periods
    check(ctx, hours_ns(p, ref_plus(p, a, 1)) == dp * 15 * MIN, "duration of short period")
    check(ctx, hours_ns(q, ref_plus(q, b, 1)) == dq * 15 * MIN, "duration of long period")
    f = tools.freq
    ctx.check(dp < dq, "reference: shorter")
    for fn, x, y, kw, e in (
        (f.assert_freq_sufficiently_long, b, a, {}, True), (f.assert_freq_sufficiently_long, b, a, dict(strict=True), True),
        (f.assert_freq_sufficiently_long, a, b, {}, False), (f.assert_freq_sufficiently_long, a, b, dict(strict=True), False),
        (f.assert_freq_sufficiently_short, a, b, {}, True), (f.assert_freq_sufficiently_short, a, b, dict(strict=True), True),
        (f.assert_freq_sufficiently_short, b, a, {}, False), (f.assert_freq_sufficiently_short, b, a, dict(strict=True), False),
        (f.assert_freq_equally_long, a, b, {}, False), (f.assert_freq_equally_long, b, a, {}, False),
    ):
        got = ok(fn, x, y, **kw)
        ctx.out(f"{fn.__name__} {x} {y} {kw}", got)
        check(ctx, (dp < dq) == (got == e), f"{fn.__name__} {x} {y} {kw}")
    for x in (a, b):
        for y in ANCH.get(parse_freq(x)[0], (x,)):
            ctx.check(ok(f.assert_freq_equally_long, x, y) and ok(f.assert_freq_sufficiently_long, x, y) and ok(f.assert_freq_sufficiently_short, x, y), f"{x} as long as {y}")
            ctx.check(not ok(f.assert_freq_sufficiently_long, x, y, strict=True) and not ok(f.assert_freq_sufficiently_short, x, y, strict=True), f"{x} not longer than {y}")
    for z in ((a, b), (b, a), (a, a, b), (b, a, b), (b, b, a)):
        ctx.check((f.shortest(*z), f.longest(*z)) == (a, b), f"shortest and longest of {z}")
    # in a longer list, the other one is never considered the shortest (longest)
    for others in ((), ("D",), ("h", "YS-MAR"), ("QS-MAR", "MS", "15min")):
        for z in itertools.permutations((a, b, *others)):
            lo, hi = f.shortest(*z), f.longest(*z)
            ctx.check(lo in z and hi in z, f"shortest and longest of {z} are in it")
            check(ctx, Or(dp >= dq, lo != b), f"shortest of {z}")
            check(ctx, Or(dp >= dq, hi != a), f"longest of {z}")
