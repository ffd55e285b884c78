"""Engine T: symbolic timestamps.

``SymStamp`` is a timestamp whose calendar fields are SMT integers; it is passed to the real
functions of the package instead of a ``pandas.Timestamp``.  ``SymIndex`` is an index of such
timestamps.  The operations of pandas on them (field access, comparison, addition of offsets
and time deltas, replacing of fields, localisation in Europe/Berlin with both DST-transitions)
are modelled here; every explored path is validated by replaying a model of it on the real
pandas objects.  ``bool()`` of a symbolic condition asks the solver and forks.
"""
from __future__ import annotations

import datetime as dt
import numbers
import sys
import types

import numpy as np
import pandas as real_pd
import z3
from pytz import AmbiguousTimeError, NonExistentTimeError

from . import core
from .core import Unsupported

SEC = 10**9
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR
BERLIN = "Europe/Berlin"
O = real_pd.tseries.offsets

# --------------------------------------------------------------------------------------
# expressions: python int / bool, or z3
# --------------------------------------------------------------------------------------


def isz(x):
    return isinstance(x, z3.ExprRef)


def simp(e):
    if not isz(e):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def If(c, a, b):
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.If(c, a, b)


def And(*cs):
    if any(not isz(c) and not c for c in cs):
        return False
    cs = [c for c in cs if isz(c)]
    return True if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)


def Or(*cs):
    if any(not isz(c) and c for c in cs):
        return True
    cs = [c for c in cs if isz(c)]
    return False if not cs else cs[0] if len(cs) == 1 else z3.Or(*cs)


def Not(c):
    return z3.Not(c) if isz(c) else not c


def idiv(a, k):
    """floor division by a positive constant"""
    return a / k if isz(a) else a // k


def imod(a, k):
    return a % k


def eq(a, b):
    return a == b


# -- calendar (years 1901 - 2099) --------------------------------------------------------


def _year(y, name, f):
    """f(y) by table.  (calendar repeats after 28 years)"""
    if not isz(y):
        return f(y)
    key = (y.get_id(), name)
    tab = core.CTX.__dict__.setdefault("tab", {})
    if key not in tab:
        k = y
        if not entails(And(y >= 2002, y <= 2031)):
            k = 2002 + imod(y - 2002, 28)
        vals = {yy: f(yy) for yy in range(2002, 2032)}
        if isinstance(vals[2002], bool):
            e = Or(*(k == yy for yy, v in vals.items() if v))
        else:
            last = vals[2031]
            e = z3.IntVal(last)
            for v in sorted(set(vals.values()) - {last}):
                e = z3.If(Or(*(k == yy for yy, w in vals.items() if w == v)), z3.IntVal(v), e)
        tab[key] = e, y
    return tab[key][0]


def leap(y):
    return imod(y,4)==0


def dim(y, m):
    return If(m == 2, If(leap(y), 29, 28), If(Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def _cum(m, f):
    cum = f(_CUM[11])
    for mm in range(11, 0, -1):
        cum = If(m == mm, f(_CUM[mm - 1]), cum)
    return cum


def daynum(y, m, d):
    """days since 1900-12-31 (a Monday)"""
    k = y - 1901
    return 365 * k + idiv(k, 4) + _cum(m, lambda c: c) + If(And(m > 2, leap(y)), 1, 0) + d


def isoweekday(y, m, d):
    # 1901-01-01 (daynum 1) is a Tuesday
    y0 = _year(y, "weekday", lambda y: daynum(y, 1, 0) % 7)
    return imod(y0 + _cum(m, lambda c: c % 7) + If(And(m > 2, leap(y)), 1, 0) + d, 7) + 1


def addmonths(y, m, k):
    t = m - 1 + k
    return y + idiv(t, 12), imod(t, 12) + 1


def nextday(y, m, d):
    last = d == dim(y, m)
    y2, m2 = addmonths(y, m, 1)
    return If(last, y2, y), If(last, m2, m), If(last, 1, d + 1)


def prevday(y, m, d):
    first = d == 1
    y2, m2 = addmonths(y, m, -1)
    return If(first, y2, y), If(first, m2, m), If(first, dim(y2, m2), d - 1)


def adddays(y, m, d, k):
    if not isz(k):
        if not any(map(isz, (y, m, d))):
            x = dt.date(y, m, d) + dt.timedelta(days=k)
            return x.year, x.month, x.day
        if k == 0:
            return y, m, d
        if k == 1:
            return nextday(y, m, d)
        if k == -1:
            return prevday(y, m, d)
        if 28 < k < 100:
            return adddays(*(simp(x) for x in adddays(y, m, d, 28)), k - 28)
    if entails(And(k >= -28, k <= 28)):
        last = dim(y, m)
        yn, mn = addmonths(y, m, 1)
        yp, mp = addmonths(y, m, -1)
        e = simp(d + k)
        up, down = e > last, e < 1
        return (
            simp(If(up, yn, If(down, yp, y))),
            simp(If(up, mn, If(down, mp, m))),
            simp(If(up, e - last, If(down, e + dim(yp, mp), e))),
        )
    ctx = core.CTX
    n = ctx.fresh = getattr(ctx, "fresh", 0) + 1
    y2, m2, d2 = (z3.Int(f"fresh{n}_{c}") for c in "ymd")
    # the day exists (and is unique) within the modelled years
    ctx._add(
        y2 >= 1901, y2 <= 2099, m2 >= 1, m2 <= 12, d2 >= 1, d2 <= dim(y2, m2),
        daynum(y2, m2, d2) == daynum(y, m, d) + k,
    )
    return y2, m2, d2


def lex(a, b, strict):
    """a < b (or <=), lexicographically"""
    r = not strict
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(x == y, r))
    return r


# -- Europe/Berlin (rules since October 1996) --------------------------------------------


def _transitions(y):
    mar = _year(y, "march", lambda y: 31 - (5 * y // 4 + 4) % 7)
    octo = _year(y, "october", lambda y: 31 - (5 * y // 4 + 1) % 7)
    return mar, octo


def _before(m, d, h, y, hour):
    """wall time (m, d, h) before ``hour`` of the transition day -> (march, october)"""
    mar, octo = _transitions(y)
    return lex((m, d, h), (3, mar, hour), True), lex((m, d, h), (10, octo, hour), True)


def berlin_valid(y, m, d, h, dst):
    """wall time (hour h) with (dst = 1) or without (dst = 0) DST exists"""
    b2m, b2o = _before(m, d, h, y, 2)
    b3m, b3o = _before(m, d, h, y, 3)
    return If(dst == 1, And(Not(b3m), b3o), Or(b2m, Not(b2o)))


def berlin_dst_utc(y, m, d, h):
    """DST (0 or 1) at an instant in UTC"""
    b1m, b1o = _before(m, d, h, y, 1)
    return If(And(Not(b1m), b1o), 1, 0)


def entails(f):
    """f holds on the current path"""
    f = simp(f)
    if not isz(f):
        return f
    memo = core.CTX.__dict__.setdefault("memo", {})
    if not memo.get(f):
        memo[f] = core.CTX._check(z3.Not(f)) == z3.unsat
    return memo[f]


# --------------------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------------------


def mkbool(e):
    e = simp(e)
    return SymBool(e) if isz(e) else bool(e)


def mkint(e):
    e = simp(e)
    return SymInt(e) if isz(e) else int(e)


def raw(x):
    if isinstance(x, (SymInt, SymBool)):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, float) and x == int(x):
        return int(x)
    raise Unsupported(f"integer operation with {type(x).__name__}")


def concretize(e, limit=60):
    """Fork over all values of e (each feasible value is one path)."""
    e = simp(e)
    ctx = core.CTX
    if not isz(e):
        return e
    for _ in range(limit):
        v = ctx.pick(e)
        if ctx.branch(simp(e == v)):
            return v
    raise Unsupported("too many values to concretize")


def _each(o, f, boolean=False):
    """f for every element of array o"""
    r = [f(x) for x in o.ravel()]
    a = boolarr(r) if boolean else objarr(r)
    return a.reshape(o.shape)


class SymBool:
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.CTX.branch(self.e)

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        if isinstance(o, SymInt):
            return simp(o.e != 0)
        return None

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return bool(self) & o
        o = self._b(o)
        return NotImplemented if o is None else mkbool(And(self.e, o))

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return bool(self) | o
        o = self._b(o)
        return NotImplemented if o is None else mkbool(Or(self.e, o))

    __rand__, __ror__ = __and__, __or__

    def __xor__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else mkbool(If(o, Not(self.e), self.e))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(Not(self.e))

    def __eq__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mkbool(self.e == b)

    def __ne__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mkbool(self.e != b)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.e})"[:200]


class SymInt:
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, SymBool):
            return o._int().e
        if isinstance(o, (numbers.Integral, np.bool_)):
            return int(o)
        if isinstance(o, float) and o == int(o):
            return int(o)
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self._bin(x, f))
        b = self._o(o)
        if b is None:
            if isinstance(o, numbers.Real):
                raise Unsupported(f"integer with {o}")
            return NotImplemented
        return mkint(f(self.e, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (O.BaseOffset, SymOffset)):
            return SymOffset.of(o) * self
        if isinstance(o, (real_pd.Timedelta, dt.timedelta, SymTD)):
            u = td_ns(o)
            return SymTD(u * self.e, None if isz(u) else (self.e, u))
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b, f):
        if isz(b):
            b = concretize(b)
        if b == 0:
            raise ZeroDivisionError
        if b < 0:
            a, b = -a, -b
            r = f(a, b)
            return mkint(-r) if f is imod else mkint(r)
        return mkint(f(a, b))

    def __floordiv__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else self._div(self.e, b, idiv)

    def __mod__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else self._div(self.e, b, imod)

    def __rfloordiv__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: x // self)
        return o // concretize(self.e)

    def __rmod__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: x % self)
        return o % concretize(self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return concretize(self.e) / (int(o) if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / concretize(self.e)

    def __pow__(self, n):
        r = 1
        for _ in range(int(n)):
            r = r * self
        return r

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(If(self.e < 0, -self.e, self.e))

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self._cmp(x, f), True)
        b = self._o(o)
        if b is None:
            if isinstance(o, float):
                return f(concretize(self.e), o)
            return NotImplemented
        return mkbool(f(self.e, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return core.CTX.branch(self.e != 0)

    def __index__(self):
        return concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(concretize(self.e))

    def __hash__(self):
        return hash(concretize(self.e))

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f"SymInt({self.e})"[:200]


# -- time deltas -------------------------------------------------------------------------


def td_ns(x):
    """time delta -> nanoseconds (int or z3), None if not a time delta"""
    if isinstance(x, SymTD):
        return x.ns
    if isinstance(x, real_pd.Timedelta):
        return x.value
    if isinstance(x, np.timedelta64) or isinstance(x, dt.timedelta):
        return real_pd.Timedelta(x).value
    if isinstance(x, O.Tick):
        return real_pd.Timedelta(x).value
    return None


class SymTD:
    __array_ufunc__ = None

    def __init__(self, ns, mult=None):
        self.ns = simp(ns)
        self.mult = mult  # (k, unit): ns == k * unit

    @property
    def value(self):
        return mkint(self.ns)

    def total_seconds(self):
        return concretize(self.ns) / 1e9

    @property
    def days(self):
        return mkint(idiv(self.ns, DAY))

    @property
    def seconds(self):
        return mkint(idiv(imod(self.ns, DAY), SEC))

    def _f(self, o, f):
        b = td_ns(o)
        return NotImplemented if b is None else SymTD(f(self.ns, b))

    def __add__(self, o):
        return self._f(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._f(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._f(o, lambda a, b: b - a)

    def __neg__(self):
        return SymTD(-self.ns, self.mult and (-self.mult[0], self.mult[1]))

    def __abs__(self):
        return SymTD(If(self.ns < 0, -self.ns, self.ns))

    def __mul__(self, k):
        k = raw(k)
        return SymTD(self.ns * k, None if isz(self.ns) else (k, self.ns))

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = td_ns(o)
        a = concretize(self.ns)
        if b is not None:
            return a / concretize(b)
        return SymTD(round(a / o))

    def __floordiv__(self, o):
        b = td_ns(o)
        return mkint(self.ns) // mkint(raw(o) if b is None else b)

    def __mod__(self, o):
        return SymTD(raw(mkint(self.ns) % mkint(td_ns(o))))

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self._cmp(x, f), True)
        b = td_ns(o)
        return NotImplemented if b is None else mkbool(f(self.ns, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return core.CTX.branch(self.ns != 0) if isz(self.ns) else bool(self.ns)

    def __hash__(self):  # equality decides
        return 12

    def __repr__(self):
        return f"SymTD({self.ns})"[:200]


# -- offsets -----------------------------------------------------------------------------


class SymOffset:
    """n (possibly symbolic) times an offset"""

    __array_ufunc__ = None

    def __init__(self, base, n):
        self.base, self.n = base, n  # base: offset with n == 1

    @classmethod
    def of(cls, o):
        if isinstance(o, SymOffset):
            return o
        n = o.n
        if n == 1:
            return cls(o, 1)
        return cls(_unit(o), n)

    def __mul__(self, k):
        return SymOffset(self.base, simp(self.n * raw(k)))

    __rmul__ = __mul__

    def __neg__(self):
        return SymOffset(self.base, simp(-self.n))

    def __add__(self, o):
        if isinstance(o, SymStamp):
            return o + self
        return NotImplemented

    __radd__ = __add__


def _unit(o):
    if type(o) is O.DateOffset:
        return O.DateOffset(**o.kwds)
    if isinstance(o, O.QuarterBegin):
        return O.QuarterBegin(1, startingMonth=o.startingMonth)
    if isinstance(o, O.YearBegin):
        return O.YearBegin(1, month=o.month)
    if isinstance(o, (O.MonthBegin, O.Tick)):
        return type(o)(1)
    raise Unsupported(f"offset {o}")


# -- time of day -------------------------------------------------------------------------


def time_us(t):
    if isinstance(t, SymTime):
        return t.us
    if isinstance(t, dt.time):
        return ((t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond
    return None


class SymTime:
    """time of day (microsecond resolution, as ``datetime.time``)"""

    __array_ufunc__ = None

    def __init__(self, us):
        self.us = simp(us)

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self._cmp(x, f), True)
        b = time_us(o)
        return NotImplemented if b is None else mkbool(f(self.us, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):  # equality decides
        return 14

    hour = property(lambda s: mkint(idiv(s.us, 3600 * 10**6)))
    minute = property(lambda s: mkint(imod(idiv(s.us, 60 * 10**6), 60)))
    second = property(lambda s: mkint(imod(idiv(s.us, 10**6), 60)))
    microsecond = property(lambda s: mkint(imod(s.us, 10**6)))
    tzinfo = None

    def __format__(self, spec):
        return "<time>"

    def __repr__(self):
        return "<time>"

    def replace(self, **kw):
        h, mi, s, us = (raw(kw.pop(k, getattr(self, k))) for k in ("hour", "minute", "second", "microsecond"))
        if kw:
            raise Unsupported(f"time.replace {kw}")
        return SymTime(((h * 60 + mi) * 60 + s) * 10**6 + us)


class SymDate:
    __array_ufunc__ = None

    def __init__(self, y, m, d):
        self.k = tuple(simp(x) for x in (y, m, d))

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self._cmp(x, f), True)
        if isinstance(o, SymDate):
            k = o.k
        elif isinstance(o, dt.date) and not isinstance(o, dt.datetime):
            k = (o.year, o.month, o.day)
        else:
            return NotImplemented
        return mkbool(f(self.k, k))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: And(*(x == y for x, y in zip(a, b))))

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: Not(And(*(x == y for x, y in zip(a, b)))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: lex(a, b, True))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: lex(a, b, False))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lex(b, a, True))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: lex(b, a, False))

    def __hash__(self):  # equality decides
        return 14

    year = property(lambda s: mkint(s.k[0]))
    month = property(lambda s: mkint(s.k[1]))
    day = property(lambda s: mkint(s.k[2]))

    def isoweekday(self):
        return mkint(isoweekday(*self.k))

    def weekday(self):
        return mkint(isoweekday(*self.k) - 1)


# -- timestamps --------------------------------------------------------------------------


def tzname(tz):
    return None if tz is None else str(tz)


_TZ = {}


def tzobj(name):
    if name is None:
        return None
    if name not in _TZ:
        _TZ[name] = real_pd.Timestamp("2020-01-01", tz=name).tz
    return _TZ[name]


class SymStamp:
    """wall-clock fields y, m, d, h, r (ns since the full hour); tz None / 'UTC' /
    'Europe/Berlin'; dst 0 / 1; fold as in pandas"""

    __array_ufunc__ = None

    def __init__(self, y, m, d, h, r, tz=None, dst=0, fold=0, sub=None):
        self.y, self.m, self.d, self.h, self.r = (simp(x) for x in (y, m, d, h, r))
        self.tzn, self.dst, self.fold = tz, simp(dst), simp(fold)
        self._sub = sub  # minute, second, microsecond, nanosecond
        self._utc = None

    # fields
    @property
    def t(self):
        """ns since midnight"""
        return simp(self.h * HOUR + self.r)

    def wall(self):
        return self.y, self.m, self.d, self.h, self.r

    def hms(self):
        if self._sub is None:
            r = self.r
            self._sub = (idiv(r, MIN), imod(idiv(r, SEC), 60), imod(idiv(r, 1000), 10**6), imod(r, 1000))
        return (self.h, *self._sub)

    year = property(lambda s: mkint(s.y))
    month = property(lambda s: mkint(s.m))
    day = property(lambda s: mkint(s.d))
    hour = property(lambda s: mkint(s.h))
    minute = property(lambda s: mkint(s.hms()[1]))
    second = property(lambda s: mkint(s.hms()[2]))
    microsecond = property(lambda s: mkint(s.hms()[3]))
    nanosecond = property(lambda s: mkint(s.hms()[4]))
    quarter = property(lambda s: mkint(idiv(s.m + 2, 3)))
    dayofweek = property(lambda s: mkint(isoweekday(s.y, s.m, s.d) - 1))
    day_of_week = dayofweek
    days_in_month = property(lambda s: mkint(dim(s.y, s.m)))
    daysinmonth = days_in_month
    dayofyear = property(lambda s: mkint(daynum(s.y, s.m, s.d) - daynum(s.y, 1, 1) + 1))
    day_of_year = dayofyear
    is_leap_year = property(lambda s: mkbool(leap(s.y)))
    is_month_start = property(lambda s: mkbool(s.d == 1))
    is_month_end = property(lambda s: mkbool(s.d == dim(s.y, s.m)))
    is_quarter_start = property(lambda s: mkbool(And(s.d == 1, imod(s.m, 3) == 1)))
    is_year_start = property(lambda s: mkbool(And(s.d == 1, s.m == 1)))
    freq = None
    unit = "ns"

    @property
    def tz(self):
        return tzobj(self.tzn)

    tzinfo = tz

    def isoweekday(self):
        return mkint(isoweekday(self.y, self.m, self.d))

    def weekday(self):
        return self.dayofweek

    def time(self):
        h = self.hms()
        return SymTime(((h[0] * 60 + h[1]) * 60 + h[2]) * 10**6 + h[3])

    def timetz(self):
        raise Unsupported("timetz")

    def date(self):
        return SymDate(self.y, self.m, self.d)

    def off(self):
        return 1 + self.dst if self.tzn == BERLIN else 0

    def utcoffset(self):
        return None if self.tzn is None else SymTD(self.off() * HOUR)

    def utc(self):
        """(y, m, d, h, r) of the instant in UTC (naive: wall)"""
        if self.tzn != BERLIN:
            return self.wall()
        if self._utc is None:
            self._utc = tuple(simp(x) for x in (*_carry(self.y, self.m, self.d, self.h - self.off()), self.r))
        return self._utc

    def ns(self):
        y, m, d, h, r = self.wall()
        return daynum(y, m, d) * DAY + (h - self.off()) * HOUR + r

    @property
    def value(self):
        return mkint(self.ns() - daynum(1970, 1, 1) * DAY)

    def timestamp(self):
        raise Unsupported("timestamp()")

    # comparison
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self._cmp(x, f), True)
        o = lift(o)
        if o is None:
            return NotImplemented
        if (o.tzn is None) != (self.tzn is None):
            raise TypeError("Cannot compare tz-naive and tz-aware timestamps")
        return mkbool(f(self.utc(), o.utc()))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: self == x, True)
        o = lift(o)
        if o is None or (o.tzn is None) != (self.tzn is None):
            return False
        if o.tzn == self.tzn:
            return mkbool(And(*(x == y for x, y in zip((*self.wall(), self.dst), (*o.wall(), o.dst)))))
        return mkbool(And(*(x == y for x, y in zip(self.utc(), o.utc()))))

    def __ne__(self, o):
        r = self == o
        if isinstance(r, np.ndarray):
            return ~r
        return not r if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: lex(a, b, True))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: lex(a, b, False))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lex(b, a, True))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: lex(b, a, False))

    def __hash__(self):  # equality decides
        return 15

    # arithmetic
    def _wall(self, y, m, d, h, r, sub=None, fold=None):
        """wall time -> timestamp in the same timezone"""
        if self.tzn != BERLIN:
            return SymStamp(y, m, d, h, r, self.tzn, 0, 0, sub)
        return localize(y, m, d, h, r, sub, fold)

    def _addtd(self, ns, mult=None):
        y, m, d, h, r = self.utc()
        sub = None
        if isz(ns) and mult is not None and (mult[1] % HOUR == 0 or HOUR % mult[1] == 0):
            k, unit = mult
            if unit % HOUR == 0:
                h, sub = simp(h + k * (unit // HOUR)), self._sub
            else:
                r = simp(r + k * unit)
                h, r = simp(h + idiv(r, HOUR)), imod(r, HOUR)
            y, m, d = adddays(y, m, d, simp(idiv(h, 24)))
            return from_utc(y, m, d, imod(h, 24), r, self.tzn, sub)
        if not isz(ns):
            days, ns = divmod(ns, DAY)
            if days:
                y, m, d = adddays(y, m, d, days)
            hours, ns = divmod(ns, HOUR)
            h = h + hours
            if ns == 0:
                sub = self._sub
            r = r + ns
        elif entails(And(ns > -HOUR, ns < HOUR)):
            r = r + ns
        else:
            r = r + ns
            k = idiv(r, HOUR)
            r, h = imod(r, HOUR), h + k
            if not entails(And(h >= -24, h < 48)):
                y, m, d = adddays(y, m, d, simp(idiv(h, 24)))
                h = imod(h, 24)
        r = simp(r)
        lo, hi = r < 0, r >= HOUR
        h = If(lo, h - 1, If(hi, h + 1, h))
        r = If(lo, r + HOUR, If(hi, r - HOUR, r))
        return from_utc(*_carry(y, m, d, simp(h)), r, self.tzn, sub)

    def __add__(self, o):
        if isinstance(o, SymOffset) or type(o) is O.DateOffset or isinstance(o, O.BaseOffset) and not isinstance(o, O.Tick):
            return self._addoffset(SymOffset.of(o))
        ns = td_ns(o)
        return NotImplemented if ns is None else self._addtd(ns, getattr(o, "mult", None))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        x = lift(o)
        if x is not None:
            if (x.tzn is None) != (self.tzn is None):
                raise TypeError("Cannot subtract tz-naive and tz-aware datetime-like objects.")
            return SymTD(self.ns() - x.ns())
        if isinstance(o, SymOffset) or isinstance(o, O.BaseOffset) and not isinstance(o, O.Tick):
            return self._addoffset(-SymOffset.of(o))
        ns = td_ns(o)
        return NotImplemented if ns is None else self._addtd(-ns)

    def __rsub__(self, o):
        x = lift(o)
        return NotImplemented if x is None else x - self

    def _addoffset(self, so):
        o, n = so.base, so.n
        if isinstance(o, O.Tick):
            return self._addtd(simp(td_ns(o) * n), (n, td_ns(o)))
        y, m, d, h, r, sub = *self.wall(), self._sub
        if type(o) is O.DateOffset:
            k = dict(o.kwds)
            months = n * (k.pop("months", 0) + 12 * k.pop("years", 0))
            days = n * (k.pop("days", 0) + 7 * k.pop("weeks", 0))
            if k or getattr(o, "normalize", False):
                raise Unsupported(f"offset {o}")
            if isz(months) or months:
                y, m = addmonths(y, m, months)
                last = dim(y, m)
                d = If(d <= last, d, last) if not (not isz(d) and d <= 28) else d
            if isz(days) or days:
                y, m, d = adddays(y, m, d, simp(days))
            return self._wall(y, m, d, h, r, sub)
        if isinstance(o, O.MonthBegin):
            step, start = 1, 1
        elif isinstance(o, O.QuarterBegin):
            step, start = 3, o.startingMonth
        elif isinstance(o, O.YearBegin):
            step, start = 12, o.month
        else:
            raise Unsupported(f"offset {o}")
        since = imod(m - start, step)  # months since start of period
        onoff = And(d == 1, since == 0)
        # n > 0: start of this period + n periods; n <= 0: next (or this) start + n periods
        k = If(n > 0, n, If(onoff, n, n + 1)) * step
        y, m = addmonths(y, m, k - since)
        return self._wall(y, m, 1, h, r, sub)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, nanosecond=None, tzinfo=object, fold=None):
        y, m, d = (raw(v) if v is not None else w for v, w in ((year, self.y), (month, self.m), (day, self.d)))
        if (month is not None or year is not None or day is not None) and not core.CTX.branch(simp(And(d >= 1, d <= dim(y, m)))):
            raise ValueError("day is out of range for month")
        h = tuple(
            raw(v) if v is not None else w
            for v, w in zip((hour, minute, second, microsecond, nanosecond), self.hms())
        )
        r = ((h[1] * 60 + h[2]) * 10**6 + h[3]) * 1000 + h[4]
        f = self.fold if fold is None else raw(fold)
        h, sub = h[0], h[1:]
        tzn = self.tzn if tzinfo is object else tzname(tzinfo)
        if tzn != BERLIN:
            return SymStamp(y, m, d, h, r, tzn, 0, f if tzn else 0, sub)
        x = localize(y, m, d, h, r, sub, f)
        x.fold = f
        return x

    def _round(self, fn, freq):
        step = td_ns(real_pd.tseries.frequencies.to_offset(freq))
        if step is None or DAY % step:
            raise Unsupported(f"{fn} to {freq}")
        y, m, d, h, r = self.wall()
        if step > HOUR:
            if step % HOUR:
                raise Unsupported(f"{fn} to {freq}")
            k = step // HOUR
            h0, r0 = h - imod(h, k), 0
            onb = And(imod(h, k) == 0, r == 0)
            h1, r1 = h0 + k, 0
        else:
            if HOUR % step:
                raise Unsupported(f"{fn} to {freq}")
            rest = imod(r, step)
            h0, r0, onb = h, r - rest, rest == 0
            r1 = r0 + step
            h1, r1 = If(r1 == HOUR, h + 1, h), If(r1 == HOUR, 0, r1)
        if fn == "floor":
            return self._wall(y, m, d, h0, r0)
        if fn == "ceil":
            h, r = If(onb, h, h1), If(onb, r, r1)
            return self._wall(*_carry(y, m, d, simp(h)), r)
        raise Unsupported("round")

    def floor(self, freq, *a, **k):
        if a or k:
            raise Unsupported("floor with arguments")
        return self._round("floor", freq)

    def ceil(self, freq, *a, **k):
        if a or k:
            raise Unsupported("ceil with arguments")
        return self._round("ceil", freq)

    def normalize(self):
        return self._wall(self.y, self.m, self.d, 0, 0)

    def tz_localize(self, tz, **k):
        if k:
            raise Unsupported("tz_localize with arguments")
        if tz is None:
            return SymStamp(*self.wall(), None, 0, 0, self._sub)
        if self.tzn is not None:
            raise TypeError("Cannot localize tz-aware Timestamp, use tz_convert for conversions")
        if tzname(tz) == BERLIN:
            return localize(*self.wall(), self._sub)
        if tzname(tz) == "UTC":
            return SymStamp(*self.wall(), "UTC", 0, 0, self._sub)
        raise Unsupported(f"time zone {tz}")

    def tz_convert(self, tz):
        if self.tzn is None:
            raise TypeError("Cannot convert tz-naive Timestamp, use tz_localize to localize")
        n = tzname(tz)
        if n not in (None, "UTC", BERLIN):
            raise Unsupported(f"time zone {tz}")
        if n == self.tzn:
            return self
        return from_utc(*self.utc(), n, self._sub)

    astimezone = tz_convert

    def as_unit(self, u):
        return self

    def to_pydatetime(self, *a, **k):
        raise Unsupported("to_pydatetime")

    def __format__(self, spec):
        return "<timestamp>"

    def __repr__(self):
        return "<timestamp>"

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if hasattr(real_pd.Timestamp, a):
            raise Unsupported(f"Timestamp.{a}")
        raise AttributeError(f"'Timestamp' object has no attribute '{a}'")


def _carry(y, m, d, h):
    """h within one day before or after"""
    lo, hi = h < 0, h >= 24
    if not isz(lo) and not isz(hi):
        if lo:
            return (*prevday(y, m, d), h + 24)
        if hi:
            return (*nextday(y, m, d), h - 24)
        return y, m, d, h
    p, n = prevday(y, m, d), nextday(y, m, d)
    r = [If(lo, a, If(hi, b, c)) for a, b, c in zip(p, n, (y, m, d))]
    return (*r, If(lo, h + 24, If(hi, h - 24, h)))


def localize(y, m, d, h, r, sub=None, fold=None):
    """wall time in Europe/Berlin -> timestamp; raises if ambiguous (unless fold is given) or
    if it does not exist"""
    y, m, d, h = (simp(x) for x in (y, m, d, h))
    ok0, ok1 = berlin_valid(y, m, d, h, 0), berlin_valid(y, m, d, h, 1)
    if isz(h) and entails(Or(h < 2, h > 2)) or not isz(h) and h != 2:
        dst = If(ok1, 1, 0)
    else:
        if core.CTX.branch(simp(Not(Or(ok0, ok1)))):
            if fold is not None:
                raise Unsupported("field replaced, result does not exist")
            raise NonExistentTimeError("nonexistent")
        if fold is None:
            if core.CTX.branch(simp(And(ok0, ok1))):
                raise AmbiguousTimeError("ambiguous")
            dst = If(ok1, 1, 0)
        else:
            dst = If(And(ok0, ok1), If(fold == 1, 0, 1), If(ok1, 1, 0))
    return SymStamp(y, m, d, h, r, BERLIN, dst, 0 if fold is None else If(And(ok0, ok1), fold, 0), sub)


def from_utc(y, m, d, h, r, tz, sub=None):
    y, m, d, h, r = (simp(x) for x in (y, m, d, h, r))
    if tz != BERLIN:
        return SymStamp(y, m, d, h, r, tz, 0, 0, sub)
    dst = simp(berlin_dst_utc(y, m, d, h))
    w = [simp(x) for x in _carry(y, m, d, simp(h + 1 + dst))]
    fold = If(And(berlin_valid(*w, 1), dst == 0), 1, 0)
    x = SymStamp(*w, r, BERLIN, dst, fold, sub)
    x._utc = (y, m, d, h, r)
    return x


def lift(x):
    """timestamp (real or symbolic) -> SymStamp, else None"""
    if isinstance(x, SymStamp):
        return x
    if x is real_pd.NaT:
        return None
    if isinstance(x, np.datetime64):
        x = real_pd.Timestamp(x)
    if isinstance(x, (real_pd.Timestamp, dt.datetime)):
        x = real_pd.Timestamp(x)
        tz = tzname(x.tz)
        if tz not in (None, "UTC", BERLIN):
            raise Unsupported(f"time zone {tz}")
        sub = (x.minute, x.second, x.microsecond, x.nanosecond)
        r = ((sub[0] * 60 + sub[1]) * 10**6 + sub[2]) * 1000 + sub[3]
        dst = int(x.utcoffset() == dt.timedelta(hours=2)) if tz == BERLIN else 0
        return SymStamp(x.year, x.month, x.day, x.hour, r, tz, dst, x.fold, sub)
    return None


# --------------------------------------------------------------------------------------
# Index
# --------------------------------------------------------------------------------------


def objarr(xs):
    xs = list(xs)
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def boolarr(xs):
    return np.array([bool(x) for x in xs], dtype=bool)


class Vals(np.ndarray):
    """array of (symbolic) values as returned by attributes and methods of an index"""

    def __new__(cls, xs):
        xs = list(xs)
        if xs and all(isinstance(x, (bool, np.bool_, SymBool)) for x in xs):
            a = boolarr(xs)
        elif xs and all(isinstance(x, (int, float, np.number)) and not isinstance(x, bool) for x in xs):
            a = np.array(xs)
        else:
            a = objarr(xs)
        return a.view(cls)

    @property
    def values(self):
        return np.asarray(self)

    def to_numpy(self):
        return np.asarray(self)

    def map(self, f):
        return Vals([f(x) for x in self])

    def isin(self, xs):
        return boolarr([x in list(xs) for x in self])

    def median(self):
        xs = [x.ns if isinstance(x, SymTD) else td_ns(x) for x in self]
        # sort by insertion (forks)
        s = []
        for x in xs:
            k = 0
            while k < len(s) and bool(mkbool(s[k] <= x)):
                k += 1
            s.insert(k, x)
        n = len(s)
        if n % 2:
            return SymTD(s[n // 2])
        return SymTD(idiv(s[n // 2 - 1] + s[n // 2], 2))

    def nunique(self):
        return len(self.unique())

    def unique(self):
        out = []
        for x in self:
            if not any(bool(x == y) for y in out):
                out.append(x)
        return Vals(out)


class SymIndex:
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, elems, freq=None, tz=None, name=None):
        self.elems = list(elems)
        self._freq = None if freq is None else real_pd.tseries.frequencies.to_offset(freq)
        self.tzn = tzname(tz) if tz is not None else (self.elems[0].tzn if self.elems else None)
        self.name = name

    tz = property(lambda s: tzobj(s.tzn))
    tzinfo = tz
    dtype = property(lambda s: np.dtype("datetime64[ns]") if s.tzn is None else real_pd.DatetimeTZDtype(tz=s.tzn))
    values = property(lambda s: objarr(s.elems))
    size = property(lambda s: len(s.elems))
    shape = property(lambda s: (len(s.elems),))
    empty = property(lambda s: not s.elems)
    freqstr = property(lambda s: None if s._freq is None else s._freq.freqstr)
    names = property(lambda s: [s.name])

    @property
    def freq(self):
        return self._freq

    @freq.setter
    def freq(self, f):
        if f is not None:
            f = real_pd.tseries.frequencies.to_offset(f)
            if not self._conforms(f):
                raise ValueError("Inferred frequency None from passed values does not conform to passed frequency")
        self._freq = f

    def _conforms(self, f):
        if not self.elems:
            return True
        x = self.elems[0]
        if isinstance(f, (O.MonthBegin, O.QuarterBegin, O.YearBegin)):
            if not (x + SymOffset(_unit(f), 0) == x):
                return False
        for y in self.elems[1:]:
            try:
                x = _step(x, f)
            except (AmbiguousTimeError, NonExistentTimeError):
                raise Unsupported("conform at DST")
            if not (x == y):
                return False
        return True

    def __len__(self):
        return len(self.elems)

    def __iter__(self):
        return iter(self.elems)

    def tolist(self):
        return list(self.elems)

    def to_list(self):
        return list(self.elems)

    def __getitem__(self, k):
        if isinstance(k, slice):
            f = self._freq if k.step in (None, 1) else None
            return SymIndex(self.elems[k], f, self.tzn, self.name)
        if isinstance(k, (int, np.integer)):
            return self.elems[k]
        if hasattr(k, "values") and not isinstance(k, np.ndarray):
            k = k.values
        k = list(k)
        if k and isinstance(k[0], (bool, np.bool_, SymBool)):
            if len(k) != len(self):
                raise IndexError("boolean index did not match")
            k = [i for i, b in enumerate(k) if b]
        keep = not k or k == list(range(k[0], k[0] + len(k)))
        return SymIndex([self.elems[i] for i in k], self._freq if keep else None, self.tzn, self.name)

    def _cmp(self, o, op):
        os = o.elems if isinstance(o, SymIndex) else list(o) if isinstance(o, (list, np.ndarray, real_pd.DatetimeIndex)) else [o] * len(self)
        if len(os) != len(self):
            raise ValueError("Lengths must match to compare")
        return boolarr([getattr(a, op)(b) for a, b in zip(self.elems, os)])

    def __eq__(self, o):
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, "__ne__")

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    __hash__ = None

    def __add__(self, o):
        f = self._freq if td_ns(o) is not None and isinstance(self._freq, O.Tick) and not isinstance(self._freq, O.Day) else None
        return SymIndex([x + o for x in self.elems], f, self.tzn, self.name)

    def __sub__(self, o):
        if isinstance(o, (SymIndex, real_pd.DatetimeIndex)):
            if len(o) != len(self):
                raise ValueError("cannot add indices of unequal length")
            return Vals([a - b for a, b in zip(self, o)])
        if lift(o) is not None:
            return Vals([a - o for a in self])
        f = self._freq if td_ns(o) is not None and isinstance(self._freq, O.Tick) and not isinstance(self._freq, O.Day) else None
        return SymIndex([x - o for x in self.elems], f, self.tzn, self.name)

    def map(self, f):
        r = [f(x) for x in self.elems]
        if r and isinstance(r[0], SymStamp):
            return SymIndex(r, None, self.tzn, self.name)
        return Vals(r)

    def shift(self, n=1, freq=None):
        f = self._freq if freq is None else real_pd.tseries.frequencies.to_offset(freq)
        if f is None:
            raise real_pd.errors.NullFrequencyError("Cannot shift with no freq")
        if freq is not None and f != self._freq:
            raise Unsupported("shift with other freq")
        if not len(self):
            return self.copy()
        so = SymOffset.of(f) * n
        start, end = self.elems[0]._addoffset(so), self.elems[-1]._addoffset(so)
        out = []
        x = start
        for _ in range(len(self) + 3):
            if isinstance(f, O.Day) and self.tzn is not None:
                go = lex(_w(x), _w(end), False)
                if not bool(mkbool(go)):
                    break
            elif not (x <= end):
                break
            out.append(x)
            x = _step(x, f)
        return SymIndex(out, f, self.tzn, self.name)

    def rename(self, name, inplace=False):
        return SymIndex(self.elems, self._freq, self.tzn, name)

    def set_names(self, name):
        return self.rename(name)

    def copy(self, *a, **k):
        return SymIndex(self.elems, self._freq, self.tzn, self.name)

    view = copy

    def _with_freq(self, f):
        i = self.copy()
        if f is None:
            i._freq = None
        else:
            i.freq = f
        return i

    def tz_localize(self, tz, **k):
        return SymIndex([x.tz_localize(tz, **k) for x in self], None if not isinstance(self._freq, O.Tick) else None, tz, self.name)

    def tz_convert(self, tz):
        return SymIndex([x.tz_convert(tz) for x in self], self._freq, tz, self.name)

    def normalize(self):
        return SymIndex([x.normalize() for x in self], None, self.tzn, self.name)

    def floor(self, f):
        return SymIndex([x.floor(f) for x in self], None, self.tzn, self.name)

    def append(self, o):
        os = o if isinstance(o, list) else [o]
        e = list(self.elems)
        for x in os:
            e += list(x)
        return SymIndex(e, None, self.tzn, self.name)

    def isin(self, xs):
        xs = list(xs)
        return boolarr([any(bool(a == b) for b in xs) for a in self])

    def __contains__(self, x):
        return any(bool(a == x) for a in self)

    def equals(self, o):
        return len(o) == len(self) and all(bool(a == b) for a, b in zip(self, o))

    def min(self):
        r = self.elems[0]
        for x in self.elems[1:]:
            if x < r:
                r = x
        return r

    def max(self):
        r = self.elems[0]
        for x in self.elems[1:]:
            if x > r:
                r = x
        return r

    def is_monotonic(self):
        return all(bool(a <= b) for a, b in zip(self.elems, self.elems[1:]))

    is_monotonic_increasing = property(is_monotonic)

    def __repr__(self):
        return f"<index of {len(self)} timestamps>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if a == "time":
            return Vals([x.time() for x in self.elems])
        if a == "date":
            return Vals([x.date() for x in self.elems])
        if a == "weekday":
            return Vals([x.dayofweek for x in self.elems])
        if a in (
            "year", "month", "day", "hour", "minute", "second", "microsecond", "nanosecond", "quarter", "dayofweek",
            "day_of_week", "is_month_start", "is_quarter_start", "is_year_start", "is_month_end", "dayofyear",
            "day_of_year", "days_in_month",
        ):
            if a in ("is_quarter_start", "is_year_start") and isinstance(self._freq, (O.QuarterBegin, O.YearBegin, O.MonthBegin)):
                # pandas: depends on the frequency's anchor month
                mon = getattr(self._freq, "startingMonth", getattr(self._freq, "month", 12 if isinstance(self._freq, O.MonthBegin) else 1))
                if isinstance(self._freq, O.MonthBegin):
                    mon = 1
                    raise Unsupported("is_quarter_start of monthly index")
                step = 3 if a == "is_quarter_start" else 12
                return Vals([mkbool(And(x.d == 1, imod(x.m - mon, step) == 0)) for x in self.elems])
            return Vals([getattr(x, a) for x in self.elems])
        if hasattr(real_pd.DatetimeIndex, a):
            raise Unsupported(f"DatetimeIndex.{a}")
        raise AttributeError(f"'DatetimeIndex' object has no attribute '{a}'")


def _w(x):
    return x.wall()


def _step(x, f):
    """next element of a date range"""
    if isinstance(f, O.Day) and x.tzn is not None:
        return x._addoffset(SymOffset(O.DateOffset(days=1), f.n))  # wall time
    return x._addoffset(SymOffset.of(f))


class SymSeries:
    """minimal series with a symbolic index"""

    def __init__(self, data, index, name=None, dtype=None):
        if isinstance(data, (bool, np.bool_, int, float, SymBool, SymInt)):
            data = [data] * len(index)
        elif hasattr(data, "values") and not isinstance(data, np.ndarray):
            data = data.values
        self.data = Vals(list(data))
        if len(self.data) != len(index):
            raise ValueError(f"Length of values ({len(self.data)}) does not match length of index ({len(index)})")
        self.index, self.name, self.dtype = index, name, dtype

    @property
    def values(self):
        return np.asarray(self.data)

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def rename(self, n):
        return SymSeries(self.data, self.index, n, self.dtype)

    def all(self):
        return all(bool(x) for x in self.data)

    def any(self):
        return any(bool(x) for x in self.data)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"Series.{a} with symbolic index")


# --------------------------------------------------------------------------------------
# pandas as seen by the package
# --------------------------------------------------------------------------------------


def has_sym(xs):
    return any(isinstance(x, (SymStamp, SymInt, SymTime, SymDate, SymTD, SymBool)) for x in xs)


class SymDatetime:
    """datetime.datetime (not a pandas timestamp)"""

    def __init__(self, x):
        self.x = x


class _TSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (real_pd.Timestamp, SymStamp))

    def __subclasscheck__(cls, c):
        return issubclass(c, real_pd.Timestamp)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], (SymStamp, SymDate, SymDatetime)):
            x = a[0]
            if isinstance(x, SymDatetime):
                x = x.x
            if isinstance(x, SymDate):
                x = SymStamp(*x.k, 0, 0)
            tz = k.pop("tz", None)
            if k or len(a) > 1:
                raise Unsupported("Timestamp(timestamp, ..)")
            if tz is None:
                return x
            return x.tz_localize(tz) if x.tzn is None else x.tz_convert(tz)
        if not has_sym([*a, *k.values()]):
            return real_pd.Timestamp(*a, **k)
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        v = dict(zip(names, a))
        tz = k.pop("tz", k.pop("tzinfo", None))
        v.update(k)
        y, m, d = (raw(v.pop(n)) for n in names[:3])
        h = tuple(raw(v.pop(n, 0)) for n in (*names[3:], "nanosecond"))
        if v:
            raise Unsupported(f"Timestamp({list(v)})")
        if not core.CTX.branch(simp(And(m >= 1, m <= 12, d >= 1, d <= dim(y, m)))):
            raise ValueError("day is out of range for month")
        s = SymStamp(y, m, d, h[0], ((h[1] * 60 + h[2]) * 10**6 + h[3]) * 1000 + h[4], None, 0, 0, h[1:])
        return s if tz is None else s.tz_localize(tz)

    def __getattr__(cls, a):
        return getattr(real_pd.Timestamp, a)


NOW = None  # symbolic "now" (tz-naive wall time), set by a harness


class Timestamp(metaclass=_TSMeta):
    @staticmethod
    def now(tz=None):
        if NOW is None:
            return real_pd.Timestamp.now(tz)
        return NOW(tz)

    today = now

    @staticmethod
    def combine(date, time):
        if not has_sym([date, time]):
            return real_pd.Timestamp.combine(date, time)
        y, m, d = date.k if isinstance(date, SymDate) else (date.year, date.month, date.day)
        us = time_us(time)
        return SymStamp(y, m, d, simp(idiv(us, 3600 * 10**6)), simp(imod(us, 3600 * 10**6) * 1000))


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (real_pd.Timedelta, SymTD))

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymTD):
            return a[0]
        if not has_sym([*a, *k.values()]):
            return real_pd.Timedelta(*a, **k)
        if a:
            raise Unsupported("Timedelta(symbolic, ..)")
        u = dict(
            weeks=7 * DAY, days=DAY, hours=HOUR, minutes=MIN, seconds=SEC, milliseconds=10**6, microseconds=1000, nanoseconds=1,
        )
        return SymTD(sum(raw(v) * u[n] for n, v in k.items()))

    def __getattr__(cls, a):
        return getattr(real_pd.Timedelta, a)


class Timedelta(metaclass=_TDMeta):
    pass


class _DIMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (real_pd.DatetimeIndex, SymIndex))

    def __call__(cls, data=None, freq=None, tz=None, name=None, **k):
        if isinstance(data, SymIndex):
            e, f0 = data.elems, data._freq
            name = name if name is not None else data.name
        elif isinstance(data, (real_pd.Index, real_pd.Series)):
            e = []
        else:
            data = list(data) if data is not None else None
            e, f0 = data or [], None
        if not has_sym(e):
            return real_pd.DatetimeIndex(data, **({} if freq is None else dict(freq=freq)), tz=tz, name=name, **k)
        if k:
            raise Unsupported("DatetimeIndex arguments")
        e = [lift(x) for x in e]
        if tz is not None:
            e = [x.tz_localize(tz) if x.tzn is None else x.tz_convert(tz) for x in e]
        i = SymIndex(e, f0, tz, name)
        if freq is not None:
            i.freq = freq
        return i

    def __getattr__(cls, a):
        return getattr(real_pd.DatetimeIndex, a)


class DatetimeIndex(metaclass=_DIMeta):
    pass


class _SerMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (real_pd.Series, SymSeries))

    def __call__(cls, data=None, index=None, dtype=None, name=None, **k):
        if isinstance(index, SymIndex):
            return SymSeries(data, index, name, dtype)
        return real_pd.Series(data, index, dtype, name, **k)

    def __getattr__(cls, a):
        return getattr(real_pd.Series, a)


class Series(metaclass=_SerMeta):
    pass


class _DOMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (real_pd.DateOffset, SymOffset))

    def __call__(cls, n=1, normalize=False, **k):
        if not has_sym([n, *k.values()]):
            return real_pd.DateOffset(n, normalize, **k)
        sym = [u for u in k if isinstance(k[u], SymInt)]
        if len(k) == 1 and sym:
            u = sym[0]
            return SymOffset(real_pd.DateOffset(**{u: 1}), simp(raw(n) * k[u].e))
        if not sym:
            return SymOffset(real_pd.DateOffset(**k), raw(n))
        raise Unsupported("DateOffset with several symbolic arguments")


class DateOffset(metaclass=_DOMeta):
    pass


def infer_freq(i):
    if not isinstance(i, SymIndex):
        return real_pd.infer_freq(i)
    if len(i) < 3:
        raise ValueError("Need at least 3 dates to infer frequency")
    for f in ("15min", "h", "D", "MS", "QS-JAN", "QS-FEB", "QS-MAR", *(f"YS-{m}" for m in "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split())):
        if i._conforms(real_pd.tseries.frequencies.to_offset(f)):
            return {"QS-JAN": "QS-OCT", "QS-FEB": "QS-NOV", "QS-MAR": "QS-DEC"}.get(f, f)
    for a, b in zip(i.elems, i.elems[1:]):
        if not (a < b):
            return None
    d = [b - a for a, b in zip(i.elems, i.elems[1:])]
    if all(x < real_pd.Timedelta(hours=3) for x in d) and any(x != d[0] for x in d[1:]):
        return None  # (quarter)hours with irregular spacing
    raise Unsupported("infer_freq: no frequency of the package")


def date_range(start=None, end=None, periods=None, freq=None, tz=None, normalize=False, name=None, inclusive="both", **k):
    if not has_sym([start, end]):
        return real_pd.date_range(start, end, periods, freq, tz, normalize, name, inclusive=inclusive, **k)
    if freq is None or k or normalize or start is None or (end is None) == (periods is None) or inclusive not in ("left", "both"):
        raise Unsupported("date_range with these arguments")
    f = real_pd.tseries.frequencies.to_offset(freq)
    start, end = lift(start), lift(end)
    if end is not None and start.tzn != end.tzn:
        raise AssertionError("Start and end cannot both be tz-aware with different timezones")
    if tz is not None:
        if start.tzn is not None and start.tzn != tzname(tz):
            raise AssertionError("Inferred time zone not equal to passed time zone")
        if start.tzn is None:
            start, end = start.tz_localize(tz), None if end is None else end.tz_localize(tz)
    if isinstance(f, (O.MonthBegin, O.QuarterBegin, O.YearBegin)) and not (start + SymOffset(_unit(f), 0) == start):
        raise Unsupported("date_range with start that is not on the boundary")
    out, x = [], start
    while True:
        if periods is not None:
            if len(out) == periods:
                break
        elif not (x < end if inclusive == "left" else x <= end):
            break
        out.append(x)
        if len(out) > 400:
            raise Unsupported("long date_range")
        try:
            x = _step(x, f)
        except (AmbiguousTimeError, NonExistentTimeError):
            raise Unsupported("date_range at DST")
    i = SymIndex(out, None, start.tzn, name)
    i._freq = f
    return i


def to_datetime(x, *a, **k):
    if isinstance(x, (SymStamp, SymIndex)) and not a and not k:
        return x
    if has_sym([x]):
        raise Unsupported("to_datetime with these arguments")
    return real_pd.to_datetime(x, *a, **k)


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (dt.datetime, SymStamp))

    def __call__(cls, *a, **k):
        return Timestamp(*a, **k) if has_sym([*a, *k.values()]) else dt.datetime(*a, **k)

    def __getattr__(cls, a):
        return getattr(dt.datetime, a)


class Datetime(metaclass=_DTMeta):
    """stand-in for datetime.datetime"""

    @staticmethod
    def combine(date, time, *a, **k):
        if not has_sym([date, time]):
            return dt.datetime.combine(date, time, *a, **k)
        if a or k:
            raise Unsupported("combine with tzinfo")
        return Timestamp.combine(date, time)


class FakePandas(types.ModuleType):
    def __init__(self):
        super().__init__("pandas")
        self.Timestamp, self.Timedelta, self.DatetimeIndex = Timestamp, Timedelta, DatetimeIndex
        self.Series, self.DateOffset, self.infer_freq, self.date_range = Series, DateOffset, infer_freq, date_range
        self.to_datetime = to_datetime

    def __getattr__(self, a):
        return getattr(real_pd, a)


class Patches:
    def __init__(self):
        self.saved = []

    def set(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def undo(self):
        global NOW
        NOW = None
        for obj, name, v in reversed(self.saved):
            setattr(obj, name, v)


def install():
    import portfolyo  # noqa

    p = Patches()
    fake = FakePandas()
    for name, mod in list(sys.modules.items()):
        if name.startswith("portfolyo.tools") and mod is not None and getattr(mod, "pd", None) is real_pd:
            p.set(mod, "pd", fake)
            if getattr(mod, "datetime", None) is dt.datetime:
                p.set(mod, "datetime", Datetime)
    return p
