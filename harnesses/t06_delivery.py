from symx.tl import *
from symx.runner import harness, meta

meta("T06",
     bounds="any trading timestamp in 2006-2027 (nanosecond resolution), timezone-naive or Europe/Berlin; period types d, m, q, s, y; front count 1-8 (symbolic); start of day 00:00, 06:00, 09:15, 17:30; left and right: any timestamp, date or datetime, given or not",
     outside="other time zones; start of day between 02:00 and 03:00 in time zones with DST; front counts below 1")

SODS = ("00:00", "06:00", "09:15", "17:30")


def sodarg(c):
    t = dt.time.fromisoformat(c["sod"])
    return t, (None if c["sod"] == "00:00" else t)


@harness("T06", lambda t: [dict(type=p, tz=tz, sod=s) for p in "dmqsy" for tz in (None, BERLIN) for s in SODS], engine="T", budget=60)
def delivery_period(ctx, c):
    """the n-th full period that starts after the trading day (start of day)"""
    sod, arg = sodarg(c)
    x = stamp(ctx, "ts", c["tz"], (2006, 2027), res="ns" if c["sod"] == "06:00" else "s")
    k = ctx.int("front", 1, 8)
    s = lift(x)
    d0 = _end_of_day(s)
    left, right = tools.product.delivery_period(x, c["type"], mkint(k) if isz(k) else k, arg)
    out(ctx, "left", left)
    out(ctx, "right", right)
    f = {"d": "D", "m": "MS", "q": "QS", "y": "YS", "s": "QS"}[c["type"]]
    if c["type"] == "s":
        check(ctx, And(is_bound(left, "QS", sod), Or(lift(left).m == 4, lift(left).m == 10)), "starts in April or October")
        check(ctx, same(right, ref_plus(left, "MS", 6)), "six months")
        # number of season starts after the trading day, up to and including left
        first = ref_plus(ref_floor6(d0, sod), "MS", 6)
        check(ctx, same(left, ref_plus(first, "MS", 6 * (k - 1))), "front count")
    else:
        check(ctx, is_bound(left, f, sod), "start of period")
        check(ctx, same(right, ref_plus(left, f, 1)), "one period")
        check(ctx, same(left, ref_plus(ref_floor(d0, f, sod), f, k)), "front count")


def _end_of_day(s):
    return SymStamp(s.y, s.m, s.d, 23, 59 * MIN, s.tzn, 0)


def ref_floor6(x, sod):
    y, m, d = label(x, sod)
    y, m = addmonths(y, m, -imod(m - 4, 6))
    from symx.tl import _stamp_wall

    return _stamp_wall(simp(y), simp(m), 1, sod.hour, sod.minute * MIN, lift(x).tzn, False)


@harness("T06", lambda t: [dict(tz=tz, given=g) for tz in (None, BERLIN) for g in ("both", "left", "right", "same")], engine="T", budget=60)
def left_and_right(ctx, c):
    """both given: ordered; else the year that the given one is the start or end of"""
    tz = c["tz"]
    g = c["given"]
    a = stamp(ctx, "a", tz, (2006, 2027), res="15min")
    s = lift(a)
    if tz and g in ("left", "right"):
        ctx.assume(s.h != 2)
    if g in ("both", "same"):
        b = stamp(ctx, "b", tz, (2006, 2027), res="15min")
        t = lift(b)
        eqt = And(s.h == t.h, s.r == t.r)
        if g == "same":
            ctx.assume(eqt)
        if not ctx.branch(simp(eqt)):
            ctx.check(raises(lambda: tools.leftandright.stamps(a, b), ValueError), "distinct times refused")
            return
        l, r = tools.leftandright.stamps(a, b)
        out(ctx, "left", l)
        out(ctx, "right", r)
        swap = lt(b, a)
        check(ctx, If(swap, And(same(l, b), same(r, a)), And(same(l, a), same(r, b))), "ordered")
        return
    l, r = tools.leftandright.stamps(left=a) if g == "left" else tools.leftandright.stamps(right=a)
    out(ctx, "left", l)
    out(ctx, "right", r)
    ts = lift(l if g == "right" else r)
    check(ctx, And(ts.h == s.h, ts.r == s.r, ts.d == 1, ts.m == 1, ts.tzn == tz), "start of a year at the same time of day")
    if g == "left":
        check(ctx, same(l, a), "left kept")
        check(ctx, And(lt(l, r), ts.y == s.y + 1), "end of that year")
    else:
        check(ctx, same(r, a), "right kept")
        start = And(s.d == 1, s.m == 1)
        check(ctx, And(lt(l, r), If(start, ts.y == s.y - 1, ts.y == s.y)), "start of the year that ends there, or of its year")


@harness("T06", lambda t: [dict(tz=tz, sod=s) for tz in (None, BERLIN) for s in SODS], engine="T", budget=60)
def no_timestamps(ctx, c):
    """neither given: the next year (``now`` is symbolic)"""
    sod, arg = sodarg(c)
    x = stamp(ctx, "now", c["tz"], (2006, 2027), res="s")
    if ctx.symbolic:
        tsym.NOW = lambda tz=None: x
        l, r = tools.leftandright.stamps(tz=c["tz"], start_of_day=arg)
    else:
        l, r = _with_now(x, lambda: tools.leftandright.stamps(tz=c["tz"], start_of_day=arg))
    out(ctx, "left", l)
    out(ctx, "right", r)
    y = label(x, sod)[0]
    for s, k in ((lift(l), 1), (lift(r), 2)):
        check(ctx, And(s.y == y + k, s.m == 1, s.d == 1, s.h == sod.hour, s.r == sod.minute * MIN, s.tzn == c["tz"]), "next year")


@harness("T06", lambda t: [dict(tz=tz, sod=s, given=g, kind=k) for tz in (None, BERLIN) for s in SODS for g in ("left", "right", "both") for k in ("date", "datetime") if t != "quick" or (len(g) + len(k) + SODS.index(s)) % 2], engine="T", budget=60)
def dates(ctx, c):
    """dates and datetimes as input: timezone and start of day as specified, unless they have a time"""
    sod, arg = sodarg(c)
    tz = c["tz"]

    def make(nm):
        x = stamp(ctx, nm, None, (2006, 2027), res="D" if c["kind"] == "date" else "15min", sod=dt.time(0))
        s = lift(x)
        if tz:
            ctx.assume(s.h != 2)
        if ctx.symbolic:
            inp = tsym.SymDate(s.y, s.m, s.d) if c["kind"] == "date" else tsym.SymDatetime(x)
        else:
            inp = x.date() if c["kind"] == "date" else x.to_pydatetime()
        midnight = And(s.h == 0, s.r == 0)
        h, r = If(midnight, sod.hour, s.h), If(midnight, sod.minute * MIN, s.r)
        return inp, (s.y, s.m, s.d, simp(h), simp(r))

    def at(x, e, label):
        s = lift(x)
        ctx.check(s.tzn == tz, f"{label}: timezone")
        check(ctx, And(*(p == q for p, q in zip((s.y, s.m, s.d, s.h, s.r), e))), label)

    g = c["given"]
    a, e = make("a")
    if g == "both":
        b, f = make("b")
        same_time = And(e[3] == f[3], e[4] == f[4])
        if not ctx.branch(simp(same_time)):
            ctx.check(raises(lambda: tools.leftandright.stamps(a, b, tz, arg), ValueError), "distinct times refused")
            return
        l, r = tools.leftandright.stamps(a, b, tz, arg)
        swap = lex(f, e, True)
        lo, hi = ([If(swap, p, q) for p, q in zip(*z)] for z in ((f, e), (e, f)))
        at(l, lo, "left")
        at(r, hi, "right")
    elif g == "left":
        l, r = tools.leftandright.stamps(a, None, tz, arg)
        at(l, e, "left")
        at(r, (e[0] + 1, 1, 1, e[3], e[4]), "right: end of that year")
    else:
        l, r = tools.leftandright.stamps(None, a, tz, arg)
        at(r, e, "right")
        start = And(e[1] == 1, e[2] == 1)
        at(l, (simp(If(start, e[0] - 1, e[0])), 1, 1, e[3], e[4]), "left: start of year that ends there, or of its year")
    out(ctx, "left", l)
    out(ctx, "right", r)


@harness("T06", lambda t: [dict(swap=s, other=o) for s in (False, True) for o in (None, "UTC")], engine="T", budget=60)
def zones(ctx, c):
    """left and right in distinct time zones: refused. Unknown types of period: refused"""
    a, b = stamp(ctx, "a", BERLIN, (2006, 2027), res="h"), stamp(ctx, "b", c["other"], (2006, 2027), res="h")
    z = (b, a) if c["swap"] else (a, b)
    got = raises(lambda: tools.leftandright.stamps(*z), ValueError)
    ctx.out("refused", got)
    check(ctx, got, "distinct time zones refused")
    for p in ("h", "w", "", "month", "dd"):
        got = raises(lambda: tools.product.delivery_period(b, p), ValueError)
        ctx.out(f"type {p}", got)
        check(ctx, got, f"type of period '{p}' refused")


def _with_now(x, f):
    """run with a fixed ``pd.Timestamp.now``"""
    import sys

    class Now(tsym.types.ModuleType):
        pass

    class _M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, pd.Timestamp)

        def __call__(cls, *a, **k):
            return pd.Timestamp(*a, **k)

        def __getattr__(cls, a):
            return getattr(pd.Timestamp, a)

    class TS(metaclass=_M):
        now = staticmethod(lambda tz=None: x)

    fake = Now("pandas")
    fake.__getattr__ = lambda a: getattr(pd, a)
    fake.Timestamp = TS
    mods = [m for n, m in list(sys.modules.items()) if n.startswith("portfolyo.tools") and getattr(m, "pd", None) is pd]
    for m in mods:
        m.pd = fake
    try:
        return f()
    finally:
        for m in mods:
            m.pd = pd
