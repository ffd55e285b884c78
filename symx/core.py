"""Path-exploring symbolic executor (Engine core).

Values are *rational functions* over exact rationals in a fixed set of symbols (the
harness inputs).  Control flow on them is decided by the SMT solver (z3): every `bool()`
of a symbolic condition asks the solver which outcomes are feasible under the current path
condition and, if both are, the executor explores both (deterministic re-execution with a
decision prefix, depth first).  Assertions of the harness are discharged by the solver for
*all* values on the path.
"""
from __future__ import annotations

import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

# --------------------------------------------------------------------------------------
# polynomials: dict {monomial: Fraction}; monomial = tuple of (var, exp) sorted.
# --------------------------------------------------------------------------------------

ONE = ()


def _padd(a, b, sign=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if sign == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


P_ONE = {ONE: Fraction(1)}


def pconst(p):
    """Fraction if polynomial is constant, else None."""
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


_FCACHE = {}


def frac(x):
    """Idealised exact value of a (finite) python number: the simplest rational (denominator
    up to 10**7) within 1e-14 (relative) of x; else the exact binary value."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    r = _FCACHE.get(x)
    if r is None:
        r = Fraction(x).limit_denominator(10**7)
        if abs(float(r) - x) > 1e-14 * abs(x):
            r = Fraction(x)
        if len(_FCACHE) < 100000:
            _FCACHE[x] = r
    return r


def is_num(x):
    return isinstance(x, (numbers.Real,)) or type(x).__module__ == "numpy" and hasattr(x, "dtype") and x.dtype.kind in "fiub" and getattr(x, "ndim", 1) == 0


class Unsupported(Exception):
    """The symbolic encoding cannot represent this operation."""


class PathLimit(BaseException):
    pass


class Infeasible(BaseException):
    """Path condition became unsatisfiable (an assume failed)."""


class CheckStop(BaseException):
    pass


CTX = None  # current context (symbolic or concrete)


def ssum(xs):
    """Sum of a list of numbers / symbolic numbers (accumulates in place)."""
    tot, const, by_den = {}, 0.0, {}
    any_sym = False
    for x in xs:
        if isinstance(x, SymReal):
            any_sym = True
            if x.den == P_ONE:
                for m, c in x.num.items():
                    v = tot.get(m, 0) + c
                    if v:
                        tot[m] = v
                    else:
                        tot.pop(m, None)
            else:
                key = tuple(sorted(x.den.items()))
                if key in by_den:
                    by_den[key] = by_den[key] + x
                else:
                    by_den[key] = x
        elif isinstance(x, Fraction):
            any_sym = True
            tot[ONE] = tot.get(ONE, 0) + x
        else:
            x = float(x)
            if not math.isfinite(x):
                const = const + x
            elif x:
                f = tot.get(ONE, 0) + frac(x)
                if f:
                    tot[ONE] = f
                else:
                    tot.pop(ONE, None)
    if const != 0.0:
        return const
    if not any_sym:
        return float(tot.get(ONE, 0))
    r = _mk(tot, P_ONE)
    for x in by_den.values():
        r = r + x
    return r


# --------------------------------------------------------------------------------------
# Symbolic numbers
# --------------------------------------------------------------------------------------


def _elem(s, a, op):
    if a.ndim == 0:
        return getattr(s, op)(a.item())
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = getattr(s, op)(a[i])
    return out


class SymReal:
    """Finite real number num/den with den != 0 on the current path."""

    __array_priority__ = 1000
    # numpy must not try to broadcast over us
    __array_ufunc__ = None

    def __init__(self, num, den=P_ONE):
        self.num = num
        self.den = den

    # -- construction helpers
    @staticmethod
    def const(x):
        f = frac(x)
        return SymReal({ONE: f} if f else {}, P_ONE)

    def value(self):
        """Fraction if constant else None."""
        c = pconst(self.num)
        if c is None:
            return None
        if c == 0:
            return c
        d = pconst(self.den)
        return None if d is None else c / d

    # -- arithmetic
    def _lift(self, o):
        if isinstance(o, SymReal):
            return o
        if is_num(o):
            return float(o) if not isinstance(o, (int, Fraction)) else o
        return None

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _elem(self, o, "__add__")
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SymReal):
            if isinstance(o, float) and not math.isfinite(o):
                return o
            o = SymReal.const(o)
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            return _mk(_padd(self.num, o.num), self.den)
        return _mk(
            _padd(_pmul(self.num, o.den), _pmul(o.num, self.den)),
            _pmul(self.den, o.den),
        )

    __radd__ = __add__

    def __neg__(self):
        return SymReal(_pscale(self.num, Fraction(-1)), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _elem(self, o, "__sub__")
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _elem(self, o, "__rsub__")
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _elem(self, o, "__mul__")
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SymReal):
            if isinstance(o, float) and not math.isfinite(o):
                if math.isnan(o):
                    return o
                if self == 0:
                    return math.nan
                return o if self > 0 else -o
            f = frac(o)
            return SymReal(_pscale(self.num, f), self.den) if f else SymReal({})
        n1, d1, n2, d2 = self.num, self.den, o.num, o.den
        # cheap cancellation
        if n1 == d2:
            return _mk(n2, d1)
        if n2 == d1:
            return _mk(n1, d2)
        return _mk(_pmul(n1, n2), _pmul(d1, d2))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _elem(self, o, "__truediv__")
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SymReal):
            if isinstance(o, float) and not math.isfinite(o):
                return o if math.isnan(o) else SymReal({})
            if o == 0:
                return self._divzero()
            return SymReal(_pscale(self.num, 1 / frac(o)), self.den)
        if o == 0:  # forks
            return self._divzero()
        n1, d1, n2, d2 = self.num, self.den, o.num, o.den
        if d1 == d2:
            if n1 == n2:
                return SymReal.const(1)
            return _mk(n1, n2)
        if n1 == n2:
            return _mk(d2, d1)
        return _mk(_pmul(n1, d2), _pmul(d1, n2))

    def _divzero(self):
        if self == 0:
            return math.nan
        return math.inf if self > 0 else -math.inf

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _elem(self, o, "__rtruediv__")
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float) and not math.isfinite(o):
            if math.isnan(o):
                return o
            if self == 0:
                return o
            return o if self > 0 else -o
        return SymReal.const(o) / self

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, numbers.Integral):
            raise Unsupported(f"pow {n}")
        if n < 0:
            return 1 / (self ** (-n))
        r = SymReal.const(1)
        for _ in range(int(n)):
            r = r * self
        return r

    def __abs__(self):
        return self if self >= 0 else -self

    # -- comparison; produce (forked) concrete bools through CTX
    def _cmp(self, o, op):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SymReal) and isinstance(o, float):
            if math.isnan(o):
                return op == "ne"
            if math.isinf(o):
                pos = o > 0
                return {
                    "eq": False,
                    "ne": True,
                    "lt": pos,
                    "le": pos,
                    "gt": not pos,
                    "ge": not pos,
                }[op]
        d = self - o
        v = d.value()
        if v is not None:
            return {
                "eq": v == 0,
                "ne": v != 0,
                "lt": v < 0,
                "le": v <= 0,
                "gt": v > 0,
                "ge": v >= 0,
            }[op]
        return CTX.branch(sign_formula(d, op))

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return self != 0

    def __hash__(self):
        v = self.value()
        if v is not None:
            return hash(v)
        raise Unsupported("hash of symbolic value")

    def __float__(self):
        v = self.value()
        if v is not None:
            return float(v)
        raise Unsupported("float() of symbolic value")

    def __int__(self):
        v = self.value()
        if v is not None:
            return int(v)
        raise Unsupported("int() of symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round of symbolic value")

    def __repr__(self):
        v = self.value()
        if v is not None:
            return f"Sym({v})"
        return f"Sym({pretty(self.num)}" + (
            f" / {pretty(self.den)})" if self.den != P_ONE else ")"
        )

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        return (SymReal, (self.num, self.den))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def pretty(p):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:8]:
        out.append(
            "*".join([str(c)] + [v if e == 1 else f"{v}^{e}" for v, e in m])
        )
    return " + ".join(out) + (" + ..." if len(p) > 8 else "")


def _mk(num, den):
    if not num:
        return SymReal({})
    d = pconst(den)
    if d is not None:
        if d != 1:
            num = _pscale(num, 1 / d)
        return SymReal(num, P_ONE)
    # cancel common monomial factor, and exact scalar multiple
    if len(num) == len(den):
        it = iter(num.items())
        m0, c0 = next(it)
        if m0 in den:
            k = c0 / den[m0]
            if all(m in den and den[m] * k == c for m, c in num.items()):
                return SymReal.const(k)
    common = None
    for p in (num, den):
        for m in p:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {v: min(e, dm[v]) for v, e in common.items() if v in dm}
            if not common:
                break
        if not common:
            break
    if common:
        # symbols in the denominator's monomial gcd are non-zero on this path.
        def red(p):
            r = {}
            for m, c in p.items():
                dm = dict(m)
                for v, e in common.items():
                    dm[v] -= e
                    if not dm[v]:
                        del dm[v]
                r[tuple(sorted(dm.items()))] = c
            return r

        return _mk(red(num), red(den)) if pconst(red(den)) is not None else SymReal(
            red(num), red(den)
        )
    return SymReal(num, den)


class SymFloat(SymReal, float):
    """Symbolic scalar that passes ``isinstance(x, float)``. Its C double value is NaN and
    must never be used."""

    def __new__(cls, num, den=P_ONE):
        o = float.__new__(cls, math.nan)
        return o

    def __init__(self, num, den=P_ONE):
        self.num = num
        self.den = den


# --------------------------------------------------------------------------------------
# z3 translation
# --------------------------------------------------------------------------------------

_VARS = {}


def asfloat(x):
    """scalar expression -> something that is a float (for APIs that check the type)"""
    return SymFloat(x.num, x.den) if isinstance(x, SymReal) and not isinstance(x, SymFloat) else x


def zvar(name):
    v = _VARS.get(name)
    if v is None:
        v = _VARS[name] = z3.Real(name)
    return v


def zpoly(p):
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(z3.RealVal(f"{c.numerator}/{c.denominator}"))
        for v, e in m:
            fs.extend([zvar(v)] * e)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def zpoly_inv(e):
    """z3 real term -> polynomial, or None"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        v = Fraction(e.as_fraction()) if z3.is_rational_value(e) else Fraction(e.as_long())
        return {ONE: v} if v else {}
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return {((e.decl().name(), 1),): Fraction(1)}
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ps = [zpoly_inv(c) for c in e.children()]
        if any(p is None for p in ps):
            return None
        r = ps[0]
        if k == z3.Z3_OP_UMINUS:
            return _pscale(r, Fraction(-1))
        for p in ps[1:]:
            r = _pmul(r, p) if k == z3.Z3_OP_MUL else _padd(r, p, 1 if k == z3.Z3_OP_ADD else -1)
        return r
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() in (2, 3, 4):
        b = zpoly_inv(e.arg(0))
        if b is None:
            return None
        r = b
        for _ in range(int(e.arg(1).as_fraction()) - 1):
            r = _pmul(r, b)
        return r
    return None


def _subst(p, sub):
    """replace variables (sub: name -> polynomial) in p"""
    if not any(v in sub for m in p for v, _ in m):
        return p
    out = {}
    for m, c in p.items():
        t = {tuple((v, e) for v, e in m if v not in sub): c}
        for v, e in m:
            if v in sub:
                for _ in range(e):
                    t = _pmul(t, sub[v])
        out = _padd(out, t)
    return out


def _canon(p, signed=True):
    """Scale a polynomial by a positive (any non-zero, if not signed) constant, so that equal
    conditions are syntactically equal."""
    items = sorted(p.items())
    c = items[0][1]
    k = abs(c) if signed else c
    return {m: v / k for m, v in items}


def sign_formula(d: SymReal, op: str):
    """z3 formula for `d op 0`; den(d) != 0 on the path."""
    zero = z3.RealVal(0)
    if op in ("eq", "ne"):
        p = _canon(d.num, signed=False)
        return zpoly(p) == zero if op == "eq" else zpoly(p) != zero
    c = pconst(d.den)
    if c is not None:
        p = d.num if c > 0 else _pscale(d.num, Fraction(-1))
    else:
        p = _pmul(d.num, d.den)
    e = zpoly(_canon(p))
    return {"lt": e < zero, "le": e <= zero, "gt": e > zero, "ge": e >= zero}[op]


def cond(x, op, y):
    """Formula (z3 or python bool) for x op y without forking."""
    for a in (x, y):
        if isinstance(a, float) and not isinstance(a, SymReal) and not math.isfinite(a):
            r = {
                "eq": "__eq__",
                "ne": "__ne__",
                "lt": "__lt__",
                "le": "__le__",
                "gt": "__gt__",
                "ge": "__ge__",
            }[op]
            if isinstance(x, SymReal):
                return x._cmp(y, op)
            if isinstance(y, SymReal):
                flip = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}
                return y._cmp(x, flip[op])
            return getattr(float(x), r)(float(y))
    if not isinstance(x, SymReal):
        x = SymReal.const(x)
    d = x - y
    v = d.value()
    if v is not None:
        return {
            "eq": v == 0,
            "ne": v != 0,
            "lt": v < 0,
            "le": v <= 0,
            "gt": v > 0,
            "ge": v >= 0,
        }[op]
    return sign_formula(d, op)


def z(b):
    """python bool or z3 bool -> z3 bool"""
    return z3.BoolVal(bool(b)) if not isinstance(b, z3.ExprRef) else b


# --------------------------------------------------------------------------------------
# Contexts
# --------------------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.paths = 0
        self.unknown = 0
        self.branches = 0
        self.identities = 0  # equalities decided by normal form: both sides are the same polynomial(s)
        self.identities_confirmed = 0  # ... as different fractions, of which the solver ...
        self.identities_unconfirmed = 0  # ... has (not) confirmed that they are equal

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Counterexample:
    def __init__(self, label, model, kind, detail=""):
        self.label, self.model, self.kind, self.detail = label, model, kind, detail


_PROBES = [Fraction(k) for k in (3, -2, 7, 11, -5, 13, 4, 17, -9, 19, 6, 23, 8, -29, 31, 10)]


class SymCtx:
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=20000, max_branches=4000, max_failures=None):
        self.prefix = list(prefix)
        self.trace = []  # list of (taken, both_feasible)
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.inputs = {}  # name -> ("real", lo, hi) | ("int", lo, hi) | choice
        self.max_branches = max_branches
        self.failures = []  # Counterexample
        self.inconclusive = []
        self.reached = 0
        self.results = []  # (label, value) snapshot for encoding validation
        self.labels = {}
        self._m = None
        self._last = None
        self._known = {}
        self.sub = {}  # equalities of the path condition, solved for one variable each
        self.max_failures = max_failures
        self._pm = None  # models of the path condition to try assertions on first
        self.identities = []

    def discharge(self):
        """Have the solver decide the equalities whose two sides have the same normal form: no
        values of the variables (on this path or any other) make one of them false."""
        todo, self.identities = self.identities, []
        if not todo:
            return
        self.stats.identities += len(todo)
        fs, t0 = [], time.time()
        for x, y in todo:
            x, y = (a if isinstance(a, SymReal) else SymReal.const(a) for a in (x, y))
            if x.num == y.num and x.den == y.den:
                continue  # the solver would be given one and the same term twice
            if time.time() - t0 > 2:
                self.stats.identities_unconfirmed += 1
                continue
            self.stats.identities_confirmed += 1
            fs.append(zpoly(x.num) * zpoly(y.den) != zpoly(y.num) * zpoly(x.den))
        if not fs:
            return
        s = z3.Solver()
        s.set("timeout", 2000)
        t = time.time()
        s.add(z3.Or(fs))
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            raise AssertionError(f"normal form refuted by the solver: {s.model()}")
        if r == z3.unknown:
            self.stats.identities_unconfirmed += len(fs)
            self.stats.identities_confirmed -= len(fs)

    def _fail(self, label, model, detail=""):
        self.failures.append(Counterexample(label, model, "assertion", detail))
        if self.max_failures and len(self.failures) >= self.max_failures:
            raise CheckStop()

    def _probe_models(self):
        """Models of the current path condition (from the solver)."""
        if self._pm is not None:
            return self._pm
        self._pm = []
        s = self.solver
        s.push()
        try:
            s.set("timeout", 300)
            fs = []
            for j, (n, sp) in enumerate(self.inputs.items()):
                if sp[0] == "real":
                    lo, hi = sp[1:]
                    v = _PROBES[j % len(_PROBES)] + Fraction(j // len(_PROBES), 4)
                    if not lo <= v <= hi:
                        v = abs(v) if lo <= abs(v) <= hi else Fraction(lo + hi) / 2 + Fraction(hi - lo) * Fraction(j % 7, 20)
                    fs.append(zvar(n) == z3.RealVal(str(v)))
            if self._check(*fs) == z3.sat:
                self._pm.append(self._extract(s.model()))
        finally:
            s.pop()
            s.set("timeout", self.timeout_ms)
        if self._m is not None:
            self._pm.append(self._extract(self._m))
        return self._pm

    def _refuted(self, x, y):
        """A model of the path condition in which x and y differ clearly, if one is at hand."""
        for m in self._probe_models():
            try:
                a, b = evaluate(x, m), evaluate(y, m)
                if abs(a - b) > 1e-2 + 1e-4 * max(abs(a), abs(b)):
                    return m
            except (ZeroDivisionError, KeyError, OverflowError, TypeError):
                pass
        return None

    def _learn(self, f):
        """use a linear equality of the path condition as substitution"""
        if z3.is_and(f):
            for c in f.children():
                self._learn(c)
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            for c in f.arg(0).children():
                self._learn(z3.Not(c))
        elif z3.is_not(f) and z3.is_not(f.arg(0)):
            self._learn(f.arg(0).arg(0))
        elif z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            a, b = zpoly_inv(f.arg(0)), zpoly_inv(f.arg(1))
            if a is None or b is None:
                return
            p = _subst(_padd(a, b, -1), self.sub)
            lin = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1]
            occ = {}
            for m in p:
                for v, _ in m:
                    occ[v] = occ.get(v, 0) + 1
            for v, c in lin:
                if occ[v] == 1 and not v.startswith("choice_"):
                    r = _pscale({m: k for m, k in p.items() if m != ((v, 1),)}, -1 / c)
                    self.sub = {u: _subst(q, {v: r}) for u, q in self.sub.items()}
                    self.sub[v] = r
                    return

    def reduce(self, d):
        """apply the known equalities to d (None if the denominator would vanish)"""
        if not self.sub:
            return d
        den = _subst(d.den, self.sub)
        if not den:
            return d
        return _mk(_subst(d.num, self.sub), den)

    # -- inputs
    def real(self, name, lo=-1000, hi=1000, nonzero=False):
        v = zvar(name)
        if name not in self.inputs:
            self.inputs[name] = ("real", lo, hi)
            self._add(v >= lo, v <= hi)
            # grid-free magnitude bound: zero or at least 1/100 (keeps clear of tolerance band)
            c = z3.RealVal("1/100")
            alts = [] if nonzero else [v == 0]
            if hi > 0:
                alts.append(v >= c)
            if lo < 0:
                alts.append(v <= -c)
            self._add(z3.Or(*alts))
        return SymReal({((name, 1),): Fraction(1)})

    def scalar(self, name, lo=-1000, hi=1000, nonzero=False):
        r = self.real(name, lo, hi, nonzero)
        return SymFloat(r.num, r.den)

    def choose(self, name, options):
        """Nondeterministic choice; forks over all options."""
        opts = list(options)
        lo, hi = 0, len(opts) - 1
        v = zvar("choice_" + name)
        if name not in self.inputs:
            self.inputs[name] = ("choice", 0, hi)
            self._add(v >= 0, v <= hi)
        while lo < hi:
            mid = (lo + hi) // 2
            if self.branch(v <= z3.RealVal(f"{2 * mid + 1}/2")):
                hi = mid
            else:
                lo = mid + 1
        return opts[lo]

    def int(self, name, lo, hi):
        """Symbolic integer (z3 expression)."""
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = ("int", lo, hi)
            self._add(v >= lo, v <= hi)
        return v

    def pick(self, e):
        """A feasible value of the z3 expression e (recorded, so that re-execution is
        deterministic)."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][0]
        else:
            if self._m is None:
                r = self._check()
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported("no model of the path condition")
                self._m = self._last
            v = self._m.eval(e, model_completion=True)
            v = True if z3.is_true(v) else False if z3.is_false(v) else v.as_long()
        self.trace.append((v, False))
        return v

    def snapshot(self, model, results):
        """values of the (integer) results for the inputs of a model"""
        if not any(isinstance(v, z3.ExprRef) for _, v in results):
            return results
        fs = [z3.Int(n) == model[n] for n, sp in self.inputs.items() if sp[0] == "int"]
        fs += [zvar("choice_" + n) == model[n] for n, sp in self.inputs.items() if sp[0] == "choice"]
        self.solver.push()
        try:
            if self._check(*fs) != z3.sat:
                return results
            m = self._last
            out = []
            for lab, v in results:
                if isinstance(v, z3.ExprRef):
                    v = m.eval(v, model_completion=True)
                    v = True if z3.is_true(v) else False if z3.is_false(v) else v.as_long()
                out.append((lab, v))
            return out
        finally:
            self.solver.pop()

    # -- solver
    def _add(self, *fs):
        self._pm = None
        self.solver.add(*fs)
        if self._m is not None:
            for f in fs:
                if not z3.is_true(self._m.eval(f, model_completion=True)):
                    self._m = None
                    break

    def _sat_by_cache(self, f):
        return self._m is not None and z3.is_true(self._m.eval(f, model_completion=True))

    def _check(self, *fs):
        t = time.time()
        r = self.solver.check(*fs)
        if r == z3.sat:
            self._last = self.solver.model()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def branch(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        known = self._known.get(f)
        if known is not None:
            return known
        r = self._branch(f)
        self._known[f] = r
        self._known[z3.simplify(z3.Not(f))] = not r
        return r

    def _branch(self, f):
        i = len(self.trace)
        if i >= self.max_branches:
            raise PathLimit(f"more than {self.max_branches} branch points")
        self.stats.branches += 1
        if i < len(self.prefix):
            taken, both = self.prefix[i]
        else:
            nf = z3.Not(f)
            mt = mf = None
            if self._sat_by_cache(f):
                rt, mt = z3.sat, self._m
            else:
                rt = self._check(f)
                mt = self._last if rt == z3.sat else None
            if rt == z3.unsat:
                rf = z3.sat if self._m is not None else self._check(nf)
                mf = self._m if self._m is not None else (self._last if rf == z3.sat else None)
            elif self._sat_by_cache(nf):
                rf, mf = z3.sat, self._m
            else:
                rf = self._check(nf)
                mf = self._last if rf == z3.sat else None
            self._m = mt if rt != z3.unsat else mf
            if rt == z3.unsat and rf == z3.unsat:
                raise Infeasible()
            if rt == z3.unsat:
                taken, both = False, False
            elif rf == z3.unsat:
                taken, both = True, False
            else:
                if z3.unknown in (rt, rf):
                    self.stats.unknown += 1
                # the generic outcome (inequality) first
                taken, both = not (z3.is_eq(f) or z3.is_and(f)), True
        self.trace.append((taken, both))
        self._add(f if taken else z3.Not(f))
        self._learn(f if taken else z3.Not(f))
        return taken

    def assume(self, c):
        if isinstance(c, bool) or not isinstance(c, z3.ExprRef):
            if not c:
                raise Infeasible()
            return
        self._add(c)
        if self._m is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self._m = self._last

    def model(self, *fs):
        if not fs and self._m is not None:
            return self._extract(self._m)
        r = self._check(*fs)
        if r != z3.sat:
            return None
        return self._extract(self._last)

    def _extract(self, m):
        out = {}
        for name, spec in self.inputs.items():
            if spec[0] == "real":
                v = m.eval(zvar(name), model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                out[name] = [v.numerator_as_long(), v.denominator_as_long()]
            elif spec[0] == "int":
                out[name] = m.eval(z3.Int(name), model_completion=True).as_long()
            else:
                v = m.eval(zvar("choice_" + name), model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                out[name] = math.ceil(
                    Fraction(v.numerator_as_long(), v.denominator_as_long()) - Fraction(1, 2)
                )
        return out

    # -- assertions
    def check(self, f, label):
        """Assert that f holds for every value on this path."""
        self.stats.obligations += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not isinstance(f, z3.ExprRef):
            if f:
                return
            m = self.model()
            if m is not None:
                self._fail(label, m)
            else:
                self.inconclusive.append((label, "false, but no model of the path found"))
            return
        r = self._check(z3.Not(f))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            self.inconclusive.append((label, "solver unknown"))
            return
        self._fail(label, self._extract(self.solver.model()))

    def eq(self, x, y, label):
        """x == y (NaN equals NaN)."""
        self.results.append((label, x))
        xn = _isnan(x)
        yn = _isnan(y)
        if xn or yn:
            self.check(xn and yn, label)
            return
        if isinstance(x, SymReal) or isinstance(y, SymReal):
            self.stats.obligations += 1
            self.labels[label] = self.labels.get(label, 0) + 1
            if self.sub and not any(isinstance(a, float) and math.isinf(a) and not isinstance(a, SymReal) for a in (x, y)):
                x, y = (self.reduce(a) if isinstance(a, SymReal) else a for a in (x, y))
                f = cond(x, "eq", y)
            else:
                f = cond(x, "eq", y)
            if f is True:
                self.identities.append((x, y))
                return
            m = self._refuted(x, y)
            if m is not None:
                self._fail(label, m, f"{x!r} vs {y!r}"[:300])
                return
            r = self._check(z3.Not(z(f)))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.stats.unknown += 1
                self.inconclusive.append((label, "solver unknown"))
                return
            m = self._extract(self.solver.model())
            # prefer a clear-cut counterexample
            self.solver.push()
            self.solver.set("timeout", 4000)
            try:
                for k in (1, Fraction(1, 100)):
                    g = z3.Or(z(cond(x - y, "gt", k)), z(cond(y - x, "gt", k)))
                    if self._check(g) == z3.sat:
                        m = self._extract(self.solver.model())
                        break
            finally:
                self.solver.pop()
                self.solver.set("timeout", self.timeout_ms)
            self._fail(label, m, f"{x!r} vs {y!r}"[:300])
        else:
            self.check(_feq(float(x), float(y)), label)

    def out(self, label, value):
        """Record an output for validation of the encoding against a concrete run."""
        self.results.append((label, value))

    def cond(self, x, op, y):
        return cond(x, op, y)

    def note(self, *a):
        pass


def _isnan(x):
    if isinstance(x, SymReal):
        return False
    try:
        return x is None or x != x
    except Exception:
        return False


def _feq(x, y, rel=1e-6, abs_=1e-6):
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= abs_ + rel * max(abs(x), abs(y))


class ConcreteViolation(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class ConCtx:
    """Concrete replay: same harness, real floats."""

    symbolic = False

    def __init__(self, model, stop=True):
        self.m = model
        self.violations = []
        self.results = []
        self.checked = 0

    def real(self, name, lo=-1000, hi=1000, nonzero=False):
        v = self.m.get(name)
        if v is None:
            return float(max(lo, min(hi, 1.0)))
        return v[0] / v[1] if isinstance(v, (list, tuple)) else float(v)

    scalar = real

    def int(self, name, lo, hi):
        return int(self.m.get(name, lo))

    def choose(self, name, options):
        return list(options)[int(self.m.get(name, 0))]

    def branch(self, f):
        return bool(f)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, f, label):
        self.checked += 1
        if not f:
            self.violations.append((label, "assertion false"))

    def eq(self, x, y, label):
        self.checked += 1
        self.results.append((label, x))
        xn, yn = _isnan(x), _isnan(y)
        if xn or yn:
            if not (xn and yn):
                self.violations.append((label, f"{x!r} vs {y!r}"))
            return
        if not _feq(float(x), float(y)):
            self.violations.append((label, f"{x!r} vs {y!r}"))

    def out(self, label, value):
        self.results.append((label, value))

    def cond(self, x, op, y):
        x, y = float(x), float(y)
        e = 1e-6 + 1e-6 * max(abs(x), abs(y)) if math.isfinite(x) and math.isfinite(y) else 0
        return {
            "eq": _feq(x, y),
            "ne": not _feq(x, y),
            "lt": x < y + e,
            "le": x <= y + e,
            "gt": x > y - e,
            "ge": x >= y - e,
        }[op]


# evaluation of a symbolic value at a concrete model -----------------------------------


def evaluate(x, model):
    if not isinstance(x, SymReal):
        return x

    fl = {}

    def ev(p):
        # floats where safe, else exactly
        terms = []
        for m, c in p.items():
            t = c.numerator / c.denominator
            for v, e in m:
                if v not in fl:
                    fl[v] = model[v][0] / model[v][1]
                t *= fl[v] ** e
            terms.append(t)
        s = math.fsum(terms)
        if abs(s) > 1e-5 * math.fsum(map(abs, terms)):
            return s
        s = Fraction(0)
        for m, c in p.items():
            t = c
            for v, e in m:
                t *= Fraction(*model[v]) ** e
            s += t
        return s

    return float(ev(x.num)) / float(ev(x.den))
