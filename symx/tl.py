"""Helpers of the timestamp harnesses (Engine T): symbolic inputs and reference calendar.

All functions work on symbolic timestamps and on real ones."""
from __future__ import annotations

import datetime as dt

import pandas as pd
import portfolyo as pf
import z3

from . import core, tsym
from .oracle import parse_freq, rank
from .runner import caused_by_unsupported
from .tsym import (
    BERLIN, DAY, HOUR, MIN, SEC, And, If, Not, Or, SymIndex, SymStamp, addmonths, adddays, berlin_dst_utc, berlin_valid,
    daynum, dim, idiv, imod, isoweekday, isz, lex, lift, mkint, nextday, prevday, raw, simp,
)

tools = pf.tools
LONG = ("D", "MS", "QS", "QS-FEB", "QS-MAR", "YS", "YS-FEB", "YS-DEC")
ALL = ("15min", "h", *LONG)
YEARS = (2003, 2030)


# -- inputs -------------------------------------------------------------------------------


def stamp(ctx, name, tz=None, years=YEARS, res="ns", sod=None):
    """Arbitrary timestamp.  res: resolution ('ns', 's', '15min', 'h', 'D': time is ``sod``)"""
    I = lambda n, lo, hi: ctx.int(f"{name}_{n}", lo, hi)
    y, m, d = I("y", *years), I("m", 1, 12), I("d", 1, 31)
    if res == "D":
        h, mi = sod.hour, sod.minute
    else:
        h = I("h", 0, 23)
        mi = 0 if res == "h" else 15 * I("qh", 0, 3) if res == "15min" else I("mi", 0, 59)
    s = I("s", 0, 59) if res in ("ns", "s") else 0
    us, ns = (I("us", 0, 999999), I("ns", 0, 999)) if res == "ns" else (0, 0)
    ctx.assume(d <= dim(y, m))
    dst = 0
    r = ((mi * 60 + s) * 10**6 + us) * 1000 + ns
    if tz == BERLIN:
        dst = I("dst", 0, 1)
        ctx.assume(berlin_valid(y, m, d, h, dst))
    if ctx.symbolic:
        fold = If(And(dst == 0, berlin_valid(y, m, d, h, 1)), 1, 0) if tz == BERLIN else 0
        return SymStamp(y, m, d, h, r, tz, dst, fold, (mi, s, us, ns))
    x = pd.Timestamp(dt.datetime(y, m, d, h, mi, s, us)) + pd.Timedelta(ns, "ns")
    return x if tz is None else x.tz_localize(tz, ambiguous=bool(dst))


def bound(ctx, name, freq, tz=None, years=YEARS, sod=dt.time(0)):
    """Arbitrary start of a delivery period of frequency freq"""
    u, a = parse_freq(freq)
    if rank(freq) < 2:
        return stamp(ctx, name, tz, years, u)
    y = ctx.int(f"{name}_y", *years)
    m = 1
    if u == "YS":
        m = a
    elif u == "QS":
        m = 3 * ctx.int(f"{name}_qu", 0, 3) + (a - 1) % 3 + 1
    else:
        m = ctx.int(f"{name}_m", 1, 12)
    d = 1
    if u == "D":
        d = ctx.int(f"{name}_d", 1, 31)
        ctx.assume(d <= dim(y, m))
    if ctx.symbolic:
        dst = If(berlin_valid(y, m, d, sod.hour, 1), 1, 0) if tz == BERLIN else 0
        return SymStamp(y, m, d, sod.hour, sod.minute * MIN, tz, dst, 0, (sod.minute, 0, 0, 0))
    x = pd.Timestamp(dt.datetime(y, m, d, sod.hour, sod.minute))
    return x if tz is None else x.tz_localize(tz)


def index(ctx, name, freq, n, tz=None, years=YEARS, sod=dt.time(0), setfreq=True):
    """n consecutive periods; arbitrary start."""
    x = bound(ctx, name, freq, tz, years, sod)
    out = [x, *(ref_plus(x, freq, k, not ctx.symbolic) for k in range(1, n))]
    if ctx.symbolic:
        i = SymIndex(out, None, tz)
        i._freq = pd.tseries.frequencies.to_offset(freq) if setfreq else None
        return i
    i = pd.DatetimeIndex(out)
    if not setfreq:
        return i
    return pd.DatetimeIndex(i, freq=freq)


# -- reference calendar ---------------------------------------------------------------------


def tns(t):
    return (t.hour * 60 + t.minute) * MIN + t.second * SEC


def is_bound(x, freq, sod=dt.time(0)):
    """x starts a period"""
    s = lift(x)
    u, a = parse_freq(freq)
    if u == "15min":
        return imod(s.r, 15 * MIN) == 0
    if u == "h":
        return s.r == 0
    return And(s.h == sod.hour, s.r == sod.minute * MIN, is_date_bound(s, freq))


def is_date_bound(s, freq):
    """a period starts on this day"""
    u, a = parse_freq(freq)
    c = []
    if u != "D":
        c.append(s.d == 1)
    if u == "QS":
        c.append(imod(s.m - a, 3) == 0)
    if u == "YS":
        c.append(s.m == a)
    return And(*c)


def ref_plus(x, freq, k, real=False):
    """k periods later"""
    s = lift(x)
    u, a = parse_freq(freq)
    if u in ("15min", "h"):
        y, m, d, h, r = s.utc()
        if not isz(k):
            days, k = divmod(k, 24 if u == "h" else 96)
            y, m, d = adddays(y, m, d, days)
        if u == "h":
            h = h + k
        elif isz(k):
            r = simp(r + k * 15 * MIN)
            h, r = h + idiv(r, HOUR), imod(r, HOUR)
        else:
            hours, k = divmod(k, 4)
            r = simp(r + k * 15 * MIN)
            up = r >= HOUR
            h, r = h + hours + If(up, 1, 0), simp(If(up, r - HOUR, r))
        h = simp(h)
        if not isz(k):
            y, m, d, h = tsym._carry(y, m, d, h)
        else:
            y, m, d, h = *adddays(y, m, d, simp(idiv(h, 24))), imod(h, 24)
        return _stamp_utc(y, m, d, h, r, s.tzn, real)
    if u == "D":
        y, m, d = adddays(s.y, s.m, s.d, k)
    else:
        y, m = addmonths(s.y, s.m, k * {"MS": 1, "QS": 3, "YS": 12}[u])
        d = s.d
    return _stamp_wall(y, m, d, s.h, s.r, s.tzn, real, s._sub)


def ref_next(x, freq, real=False):
    return ref_plus(x, freq, 1, real and not isinstance(x, SymStamp))


def _real(y, m, d, h, r):
    return pd.Timestamp(dt.datetime(y, m, d, h)) + pd.Timedelta(r, "ns")


def _stamp_wall(y, m, d, h, r, tz, real, sub=None):
    if real:
        x = _real(y, m, d, h, r)
        return x if tz is None else x.tz_localize(tz)
    dst = If(berlin_valid(y, m, d, h, 1), 1, 0) if tz == BERLIN else 0
    return SymStamp(y, m, d, h, r, tz, dst, 0, sub)


def _stamp_utc(y, m, d, h, r, tz, real):
    if real:
        x = _real(y, m, d, h, r)
        return x if tz is None else x.tz_localize("UTC").tz_convert(tz)
    return tsym.from_utc(y, m, d, h, r, tz)


def same(a, b):
    """same instant, same timezone"""
    a, b = lift(a), lift(b)
    if a is None or b is None or a.tzn != b.tzn:
        return False
    if a._utc is not None and b._utc is not None:
        return And(*(x == y for x, y in zip(a.utc(), b.utc())))
    return And(*(x == y for x, y in zip((*a.wall(), a.dst), (*b.wall(), b.dst))))


def lt(a, b):
    return lex(lift(a).utc(), lift(b).utc(), True)


def le(a, b):
    return lex(lift(a).utc(), lift(b).utc(), False)


def hours_ns(a, b):
    """nanoseconds from a to b"""
    return lift(b).ns() - lift(a).ns()


# -- assertions -------------------------------------------------------------------------------


def check(ctx, f, label):
    f = simp(f)
    ctx.check(f, label)


def out(ctx, label, x):
    """record a timestamp (for validation of the encoding)"""
    s = lift(x)
    if s is None:
        ctx.out(label, str(x))
        return
    for n, v in zip(("y", "m", "d", "h", "r", "dst"), (*s.wall(), s.dst)):
        ctx.out(f"{label}.{n}", v)
    ctx.out(f"{label}.tz", s.tzn)


def outs(ctx, label, xs):
    xs = list(xs)
    ctx.out(f"{label} length", len(xs))
    for k, x in enumerate(xs):
        out(ctx, f"{label}[{k}]", x)


def raises(fn, exc=Exception):
    try:
        fn()
    except Exception as e:
        if caused_by_unsupported(e):
            raise
        return isinstance(e, exc)
    return False


def label(x, sod):
    """(y, m, d) of the delivery day that contains x"""
    s = lift(x)
    early = lex((s.h, s.r), (sod.hour, sod.minute * MIN), True)
    p = prevday(s.y, s.m, s.d)
    return tuple(simp(If(early, a, b)) for a, b in zip(p, (s.y, s.m, s.d)))


def ref_floor(x, freq, sod=dt.time(0)):
    """start of the daily-or-longer period that contains x"""
    u, a = parse_freq(freq)
    y, m, d = label(x, sod)
    if u != "D":
        d = 1
    if u in ("QS", "YS"):
        y, m = addmonths(y, m, -imod(m - a, 3 if u == "QS" else 12))
    return _stamp_wall(simp(y), simp(m), d, sod.hour, sod.minute * MIN, lift(x).tzn, False, (sod.minute, 0, 0, 0))


def boolval(b):
    """SymBool / bool -> formula"""
    return b.e if isinstance(b, tsym.SymBool) else bool(b)


def seriesvals(s):
    """values of a (pint) series / a series with symbolic index"""
    v = getattr(s, "array", None) if isinstance(s, pd.Series) else None
    if v is not None and type(v).__name__ == "PintArray":
        return [float(q.magnitude) for q in s.array]
    return list(s.values)


def sym_time(ctx, name, step=15):
    """time of day, multiple of ``step`` minutes"""
    k = ctx.int(name, 0, 24 * 60 // step - 1)
    if ctx.symbolic:
        return tsym.SymTime(k * step * 60 * 10**6)
    return dt.time(k * step // 60, k * step % 60)
