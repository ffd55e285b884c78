"""Lets real pandas / pint-pandas / portfolyo run on symbolic values: a pandas
ExtensionArray whose elements are ``SymReal`` or python floats, plus the (few) numpy
functions and pandas-internal C entry points that would need an actual double."""
from __future__ import annotations

import math
import operator
from fractions import Fraction

import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype, take
from pandas.api.types import is_list_like

from . import core
from .core import SymReal, SymFloat, Unsupported, cond, is_num, z, z3


class SymDtype(ExtensionDtype):
    name = "symfloat"
    type = float
    kind = "f"
    na_value = np.nan
    itemsize = 8

    @property
    def _is_numeric(self):
        return True

    @property
    def _is_boolean(self):
        return False

    @classmethod
    def construct_array_type(cls):
        return SymArray

    @classmethod
    def construct_from_string(cls, s):
        if s == cls.name:
            return cls()
        raise TypeError(f"Cannot construct a 'SymDtype' from {s!r}")

    def __eq__(self, o):
        if isinstance(o, SymDtype):
            return True
        if o is float or o is np.float64 or (isinstance(o, str) and o in ("float", "float64", "f8", self.name)):
            return True
        if isinstance(o, np.dtype):
            return o == np.dtype(float)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(np.dtype(float))

    def _get_common_dtype(self, dtypes):
        for d in dtypes:
            if isinstance(d, SymDtype):
                continue
            if isinstance(d, np.dtype) and d.kind in "fiub":
                continue
            if isinstance(d, ExtensionDtype) and getattr(d, "kind", "O") in "fiub":
                continue
            return None
        return self


SD = SymDtype()


def norm(x):
    """normalise an element"""
    if type(x) is SymReal:
        return x
    if isinstance(x, SymReal):
        return SymReal(x.num, x.den)
    if x is None or x is pd.NA or x is pd.NaT:
        return math.nan
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, Fraction):
        return SymReal.const(x)
    if is_num(x):
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x.item())
    raise Unsupported(f"element {type(x)}")


def has_sym(a):
    return any(isinstance(x, SymReal) for x in a)


class SymArray(ExtensionArray):
    __array_priority__ = 2000
    _HANDLED = (np.ndarray,)

    def __init__(self, values, copy=False):
        if isinstance(values, SymArray):
            values = values._d
        n = len(values)
        d = np.empty(n, dtype=object)
        for i, v in enumerate(values):
            d[i] = norm(v)
        self._d = d

    # -- ExtensionArray interface
    @classmethod
    def _from_sequence(cls, scalars, *, dtype=None, copy=False):
        return cls(scalars)

    @classmethod
    def _from_scalars(cls, scalars, *, dtype):
        try:
            return cls(scalars)
        except Unsupported as e:
            raise ValueError(str(e)) from e

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(values)

    @classmethod
    def _wrap(cls, d):
        o = object.__new__(cls)
        o._d = d
        return o

    def __len__(self):
        return len(self._d)

    @property
    def dtype(self):
        return SD

    @property
    def nbytes(self):
        return 8 * len(self)

    @property
    def ndim(self):
        return 1

    @property
    def shape(self):
        return (len(self._d),)

    @property
    def size(self):
        return len(self._d)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] is Ellipsis:
                k = k[1]
            elif len(k) == 1:
                k = k[0]
        if pd.api.types.is_integer(k):
            return self._d[k]
        if k is Ellipsis:
            return self
        if isinstance(k, slice):
            return self._wrap(self._d[k])
        k = pd.api.indexers.check_array_indexer(self, k)
        return self._wrap(self._d[k])

    def __setitem__(self, k, v):
        if isinstance(v, (pd.Series,)):
            v = v.array
        k = pd.api.indexers.check_array_indexer(self, k) if not pd.api.types.is_integer(k) else k
        if is_list_like(v):
            vv = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                vv[i] = norm(x)
            self._d[k] = vv if len(vv) != 1 else vv[0]
        else:
            v = norm(v)
            if pd.api.types.is_integer(k):
                self._d[k] = v
            else:
                idx = np.arange(len(self._d))[k]
                for i in np.atleast_1d(idx):
                    self._d[i] = v

    def isna(self):
        return np.array([not isinstance(x, SymReal) and x != x for x in self._d], dtype=bool)

    def take(self, indices, *, allow_fill=False, fill_value=None, axis=0, **kw):
        if allow_fill and (fill_value is None or fill_value is pd.NA):
            fill_value = math.nan
        if allow_fill:
            fill_value = norm(fill_value)
            indices = np.asarray(indices, dtype=np.intp)
            if len(self._d) == 0 and (indices >= 0).any():
                raise IndexError("cannot do a non-empty take from an empty axes.")
            if (indices < -1).any() or (indices >= max(len(self._d), 1)).any() and len(indices):
                if (indices < -1).any():
                    raise ValueError
                raise IndexError
            out = np.empty(len(indices), dtype=object)
            for j, i in enumerate(indices):
                out[j] = fill_value if i == -1 else self._d[i]
            return self._wrap(out)
        return self._wrap(self._d.take(indices))

    def copy(self):
        return self._wrap(self._d.copy())

    @classmethod
    def _concat_same_type(cls, to_concat):
        ds = [a._d if isinstance(a, SymArray) else SymArray(list(a))._d for a in to_concat]
        return cls._wrap(np.concatenate(ds) if ds else np.empty(0, object))

    def astype(self, dtype, copy=True):
        if isinstance(dtype, SymDtype):
            return self.copy() if copy else self
        if dtype is object or dtype == np.dtype(object):
            return self._d.copy()
        if isinstance(dtype, pd.api.extensions.ExtensionDtype):
            if getattr(dtype, "kind", "O") == "f" and type(dtype).__name__ != "PintType":
                return self.copy() if copy else self
            return dtype.construct_array_type()._from_sequence(self, dtype=dtype)
        if isinstance(dtype, str) and dtype.startswith("pint"):
            dt = pd.api.types.pandas_dtype(dtype)
            return dt.construct_array_type()._from_sequence(self, dtype=dt)
        dt = np.dtype(dtype)
        if dt.kind == "f":
            return self.copy() if copy else self
        if not has_sym(self._d):
            return self._d.astype(dt)
        if dt.kind == "b":
            return np.array([bool(x != 0) for x in self._d])
        if dt.kind in "US":
            return np.array([repr(x) for x in self._d])
        raise Unsupported(f"astype {dtype}")

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        if dtype is object or dtype == np.dtype(object):
            return self._d.copy()
        return self

    def tolist(self):
        return list(self._d)

    def __iter__(self):
        return iter(self._d)

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype).kind == "f" and not has_sym(self._d):
            return np.asarray(self._d, dtype=dtype)
        return np.array(self._d, dtype=object)

    def _formatter(self, boxed=False):
        return repr

    def _values_for_argsort(self):
        raise Unsupported("argsort of symbolic values")

    def argsort(self, *, ascending=True, kind="quicksort", na_position="last", **kw):
        if not has_sym(self._d):
            return np.argsort(self._d.astype(float))
        # insertion sort with forked comparisons
        idx = [i for i, x in enumerate(self._d) if isinstance(x, SymReal) or x == x]
        nas = [i for i in range(len(self._d)) if i not in idx]
        out = []
        for i in idx:
            j = len(out)
            while j > 0 and self._d[i] < self._d[out[j - 1]]:
                j -= 1
            out.insert(j, i)
        if not ascending:
            out = out[::-1]
        return np.array(out + nas if na_position == "last" else nas + out, dtype=np.intp)

    def unique(self):
        out = []
        for x in self._d:
            if not any(_same(x, y) for y in out):
                out.append(x)
        return SymArray(out)

    def factorize(self, use_na_sentinel=True):
        uniq, codes = [], []
        for x in self._d:
            if not isinstance(x, SymReal) and x != x and use_na_sentinel:
                codes.append(-1)
                continue
            for j, y in enumerate(uniq):
                if _same(x, y):
                    codes.append(j)
                    break
            else:
                codes.append(len(uniq))
                uniq.append(x)
        return np.array(codes, dtype=np.intp), SymArray(uniq)

    def map(self, mapper, na_action=None):
        r = [mapper(x) for x in self._d]
        return box(r)

    def equals(self, other):
        if not isinstance(other, (SymArray, ExtensionArray, np.ndarray)) or len(other) != len(self):
            return False
        return all(bool(_same(x, norm(y))) for x, y in zip(self._d, other))

    def interpolate(self, *a, **k):
        raise Unsupported("interpolate")

    # -- arithmetic
    def _other(self, o):
        """list of elements or scalar"""
        if isinstance(o, SymArray):
            return o._d
        if isinstance(o, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
        if isinstance(o, ExtensionArray):
            if type(o).__name__ == "PintArray":
                return NotImplemented
            o = o.to_numpy(dtype=float, na_value=np.nan) if getattr(o.dtype, "kind", "O") in "fiub" else np.asarray(o, dtype=object)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, (list, tuple, np.ndarray)):
            if len(o) != len(self) and len(o) != 1:
                raise ValueError("Lengths must match")
            if len(o) == 1 and len(self) != 1:
                return norm(o[0])
            return [norm(x) for x in o]
        if isinstance(o, SymReal) or is_num(o) or o is None or o is pd.NA:
            return norm(o)
        return NotImplemented

    def _bin(self, o, f, cmp=False):
        o = self._other(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, (list, np.ndarray)):
            r = [f(a, b) for a, b in zip(self._d, o)]
        else:
            r = [f(a, o) for a in self._d]
        if cmp:
            return np.array([bool(x) for x in r], dtype=bool)
        d = np.empty(len(r), dtype=object)
        for i, x in enumerate(r):
            d[i] = x
        return self._wrap(d)

    def __neg__(self):
        return self._wrap(_objarr([-x for x in self._d]))

    def __pos__(self):
        return self

    def __abs__(self):
        return self._wrap(_objarr([abs(x) for x in self._d]))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and ufunc in _UFUNCS and "out" not in kw:
            return _UFUNCS[ufunc](*inputs)
        if method == "reduce" and ufunc in (np.add,):
            return self._reduce("sum", skipna=False)
        if method == "reduce" and ufunc is np.logical_and:
            return all(bool(x) for x in self._d)
        if method == "reduce" and ufunc is np.logical_or:
            return any(bool(x) for x in self._d)
        if method == "accumulate" and ufunc is np.add:
            return _cumsum(self)
        raise Unsupported(f"ufunc {ufunc} {method}")

    def __array_function__(self, func, types, args, kw):
        f = _FUNCS.get(func)
        if f is None:
            raise Unsupported(f"numpy function {func}")
        return f(*args, **kw)

    def _reduce(self, name, *, skipna=True, keepdims=False, **kw):
        d = list(self._d)
        na = [not isinstance(x, SymReal) and x != x for x in d]
        if name in ("any", "all"):
            return {"any": any, "all": all}[name](bool(x != 0) for x, n in zip(d, na) if not n)
        if any(na):
            if skipna:
                d = [x for x, n in zip(d, na) if not n]
            else:
                r = math.nan
                return SymArray([r]) if keepdims else r
        if name == "sum":
            if len(d) < kw.get("min_count", 0):
                r = math.nan
            else:
                r = core.ssum(d)
        elif name == "mean":
            if not d:
                r = math.nan
            else:
                r = core.ssum(d) / len(d)
        elif name in ("min", "max"):
            if not d:
                r = math.nan
            else:
                r = d[0]
                for x in d[1:]:
                    if (x < r) if name == "min" else (x > r):
                        r = x
        elif name == "prod":
            r = 1.0
            for x in d:
                r = x * r
        else:
            raise Unsupported(f"reduce {name}")
        return SymArray([r]) if keepdims else r

    def _accumulate(self, name, *, skipna=True, **kw):
        if name == "cumsum":
            return _cumsum(self)
        raise Unsupported(f"accumulate {name}")

    def sum(self, *a, **k):
        return self._reduce("sum", skipna=False)

    def mean(self, *a, **k):
        return self._reduce("mean", skipna=False)

    def min(self, *a, **k):
        return self._reduce("min", skipna=False)

    def max(self, *a, **k):
        return self._reduce("max", skipna=False)

    def any(self, *a, **k):
        return self._reduce("any")

    def all(self, *a, **k):
        return self._reduce("all")

    def round(self, *a, **k):
        raise Unsupported("round")

    def _groupby_op(self, **kw):
        raise NotImplementedError("symbolic")

    def _pad_or_backfill(self, *, method, limit=None, limit_area=None, copy=True):
        d = self._d.copy()
        rng = range(len(d)) if method in ("pad", "ffill") else range(len(d) - 1, -1, -1)
        last, cnt = math.nan, 0
        for i in rng:
            if not isinstance(d[i], SymReal) and d[i] != d[i]:
                if limit is None or cnt < limit:
                    d[i] = last
                cnt += 1
            else:
                last, cnt = d[i], 0
        return self._wrap(d)

    def fillna(self, value=None, method=None, limit=None, copy=True):
        if method is not None:
            return self._pad_or_backfill(method=method, limit=limit)
        d = self._d.copy()
        vals = value if is_list_like(value) else None
        for i, x in enumerate(d):
            if not isinstance(x, SymReal) and x != x:
                d[i] = norm(vals[i]) if vals is not None else norm(value)
        return self._wrap(d)

    def shift(self, periods=1, fill_value=None):
        return super().shift(periods, fill_value)


def _objarr(r):
    d = np.empty(len(r), dtype=object)
    for i, x in enumerate(r):
        d[i] = norm(x)
    return d


def box(r):
    """list -> SymArray if numeric, else ndarray"""
    try:
        return SymArray(r)
    except Unsupported:
        return np.array(r, dtype=object)


def _same(x, y):
    xs, ys = isinstance(x, SymReal), isinstance(y, SymReal)
    if not xs and x != x:
        return not ys and y != y
    if not ys and y != y:
        return False
    return bool(x == y)


def _cumsum(a, *args, **kw):
    out, r = [], None
    for x in a:
        r = x if r is None else r + x
        out.append(r)
    return SymArray(out)


def _sdiv(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return a / b
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _mkop(f, cmp=False, refl=False):
    def op(self, o):
        g = (lambda a, b: f(b, a)) if refl else f
        return self._bin(o, g, cmp)

    return op


for _n, _f in {
    "add": operator.add,
    "sub": operator.sub,
    "mul": operator.mul,
    "truediv": _sdiv,
    "pow": operator.pow,
}.items():
    setattr(SymArray, f"__{_n}__", _mkop(_f))
    setattr(SymArray, f"__r{_n}__", _mkop(_f, refl=True))
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(SymArray, f"__{_n}__", _mkop(getattr(operator, _n), cmp=True))
SymArray.__hash__ = None


def _pair(a, b):
    """broadcast to two lists"""
    def lst(x):
        if isinstance(x, (pd.Series, pd.Index)):
            x = x.array
        if isinstance(x, ExtensionArray) and type(x).__name__ == "PintArray":
            raise Unsupported("pint array in numpy function")
        if isinstance(x, SymArray):
            return list(x._d)
        if isinstance(x, ExtensionArray):
            return [norm(v) for v in x]
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim == 1:
            return [norm(v) for v in x]
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return norm(x.item())
        if isinstance(x, SymReal) or is_num(x):
            return norm(x)
        raise Unsupported(f"broadcast {type(x)}")

    a, b = lst(a), lst(b)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            if len(b) == 1:
                b = b * len(a)
            elif len(a) == 1:
                a = a * len(b)
            else:
                raise ValueError("operands could not be broadcast together")
        return a, b, True
    if isinstance(a, list):
        return a, [b] * len(a), True
    if isinstance(b, list):
        return [a] * len(b), b, True
    return [a], [b], False


def close_formula(x, y, equal_nan=False, rtol=1e-5, atol=1e-8, rel_max=False):
    """Closeness.  Within the default tolerances it is idealised to equality (the bounded inputs
    are restricted to values for which no comparison falls strictly inside the band; see
    DESIGN.md); a wider band is encoded as it is.  rel_max: pandas' definition
    (max(rtol * max(|x|, |y|), atol)) instead of numpy's (atol + rtol * |y|)."""
    xs, ys = isinstance(x, SymReal), isinstance(y, SymReal)
    if not xs and not ys:
        if rel_max:
            if equal_nan and core._isnan(x) and core._isnan(y):
                return True
            return math.isclose(x, y, rel_tol=rtol, abs_tol=atol)
        return bool(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan))
    if (not xs and not math.isfinite(x)) or (not ys and not math.isfinite(y)):
        return False
    if rtol <= 1.001e-5 and atol <= 1.001e-8:
        return cond(x, "eq", y)
    d = x - y

    def band(t):  # -t <= d <= t
        return z3.And(z(cond(d, "le", t)), z(cond(d + t, "ge", 0)))

    alts = [band(atol)]
    if rtol:
        for v in (x, y) if rel_max else (y,):
            base = 0 if rel_max else atol
            alts.append(z3.And(z(cond(v, "ge", 0)), band(base + rtol * v)))
            alts.append(z3.And(z(cond(v, "le", 0)), band(base - rtol * v)))
    return z3.simplify(z3.Or(*alts))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y, arr = _pair(a, b)
    r = [core.CTX.branch(close_formula(p, q, equal_nan, rtol, atol)) for p, q in zip(x, y)]
    return np.array(r, dtype=bool) if arr else r[0]


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y, _ = _pair(a, b)
    fs = [close_formula(p, q, equal_nan, rtol, atol) for p, q in zip(x, y)]
    if any(f is False for f in fs):
        return False
    fs = [f for f in fs if f is not True]
    if not fs:
        return True
    return core.CTX.branch(z3.And(*[z(f) for f in fs]))


def _un(f):
    def g(a, *args, **kw):
        if isinstance(a, SymReal):
            return f(a)
        return np.array([f(x) for x in a], dtype=bool)

    return g


_isinf = _un(lambda x: not isinstance(x, SymReal) and math.isinf(x))
_isnan = _un(lambda x: not isinstance(x, SymReal) and math.isnan(x))
_isfin = _un(lambda x: isinstance(x, SymReal) or math.isfinite(x))

_BIN = {
    np.add: operator.add,
    np.subtract: operator.sub,
    np.multiply: operator.mul,
    np.true_divide: operator.truediv,
    np.divide: operator.truediv,
    np.equal: operator.eq,
    np.not_equal: operator.ne,
    np.less: operator.lt,
    np.less_equal: operator.le,
    np.greater: operator.gt,
    np.greater_equal: operator.ge,
    np.power: operator.pow,
}


def _ufbin(op):
    name = {
        operator.add: "add", operator.sub: "sub", operator.mul: "mul",
        operator.truediv: "truediv", operator.pow: "pow", operator.eq: "eq",
        operator.ne: "ne", operator.lt: "lt", operator.le: "le",
        operator.gt: "gt", operator.ge: "ge",
    }[op]
    flip = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}

    def f(a, b):
        if isinstance(a, SymArray):
            return getattr(a, f"__{name}__")(b)
        if name in flip:
            return getattr(b, f"__{flip[name]}__")(a)
        return getattr(b, f"__r{name}__")(a)

    return f


_UFUNCS = {k: _ufbin(v) for k, v in _BIN.items()}
_UFUNCS.update(
    {
        np.isinf: _isinf,
        np.isnan: _isnan,
        np.isfinite: _isfin,
        np.absolute: lambda a: abs(a),
        np.fabs: lambda a: abs(a),
        np.negative: lambda a: -a,
        np.positive: lambda a: a,
        np.sign: lambda a: SymArray([1.0 if x > 0 else (-1.0 if x < 0 else 0.0) for x in a]),
        np.maximum: lambda a, b: SymArray([(p if p >= q else q) for p, q in zip(*_pair(a, b)[:2])]),
        np.minimum: lambda a, b: SymArray([(p if p <= q else q) for p, q in zip(*_pair(a, b)[:2])]),
        np.square: lambda a: a * a,
    }
)


def _fill(n, v, dtype):
    if dtype is not None and not isinstance(dtype, SymDtype) and np.dtype(dtype).kind in "biuO":
        return np.full(n, v, dtype=dtype)
    return SymArray([v] * n)


def _where(c, *args):
    if not args:
        return np.where(np.asarray(c, dtype=bool))
    a, b = args
    c = np.asarray(c, dtype=bool)
    aa = _pair(a, [0.0] * len(c))[0]
    bb = _pair(b, [0.0] * len(c))[0]
    return SymArray([p if k else q for k, p, q in zip(c, aa, bb)])


_FUNCS = {
    np.isclose: isclose,
    np.broadcast_arrays: lambda *a, **k: [
        x if isinstance(x, SymArray) and len(x) == max(len(y) if hasattr(y, "__len__") else 1 for y in a)
        else SymArray(list(np.broadcast_to(np.asarray(x, dtype=object), (max(len(y) if hasattr(y, "__len__") else 1 for y in a),))))
        for x in a
    ],
    np.allclose: allclose,
    np.atleast_1d: lambda *a: a[0] if len(a) == 1 else list(a),
    np.concatenate: lambda xs, *a, **k: SymArray([v for x in xs for v in x]),
    np.hstack: lambda xs, *a, **k: SymArray([v for x in xs for v in x]),
    np.sum: lambda a, *r, **k: a._reduce("sum", skipna=False),
    np.nansum: lambda a, *r, **k: a._reduce("sum", skipna=True),
    np.mean: lambda a, *r, **k: a._reduce("mean", skipna=False),
    np.nanmean: lambda a, *r, **k: a._reduce("mean", skipna=True),
    np.average: lambda a, weights=None, **k: a.mean() if weights is None else (a * weights).sum() / SymArray(weights).sum(),
    np.max: lambda a, *r, **k: a.max(),
    np.min: lambda a, *r, **k: a.min(),
    np.all: lambda a, *r, **k: a.all(),
    np.any: lambda a, *r, **k: a.any(),
    np.array_equal: lambda a, b, *r, **k: bool(len(a) == len(b) and np.all(SymArray(a) == SymArray(b))),
    np.copy: lambda a, *r, **k: a.copy(),
    np.where: _where,
    np.shape: lambda a: a.shape,
    np.ndim: lambda a: 1,
    np.size: lambda a, *r: a.size,
    np.isreal: lambda a: np.ones(len(a), dtype=bool),
    np.iscomplexobj: lambda a: False,
    np.cumsum: _cumsum,
    np.diff: lambda a, *r, **k: a[1:] - a[:-1],
    np.dot: lambda a, b, *r: (SymArray(a) * SymArray(b)).sum(),
    np.nan_to_num: lambda a, copy=True, nan=0.0, **k: SymArray([nan if (not isinstance(x, SymReal) and x != x) else x for x in a]),
    np.asarray: lambda a, *r, **k: a,
    np.unique: lambda a, **k: a.unique(),
    np.full_like: lambda a, fill_value, dtype=None, **k: _fill(len(a), fill_value, dtype),
    np.zeros_like: lambda a, dtype=None, **k: _fill(len(a), 0.0, dtype),
    np.ones_like: lambda a, dtype=None, **k: _fill(len(a), 1.0, dtype),
    np.result_type: lambda *a: np.dtype(float),
    np.can_cast: lambda *a, **k: True,
    np.round: lambda a, *r, **k: a.round(),
    np.clip: lambda a, lo, hi, **k: SymArray([lo if lo is not None and x < lo else (hi if hi is not None and x > hi else x) for x in a]),
    np.repeat: lambda a, n, axis=None: SymArray([x for x, k in zip(a, np.broadcast_to(n, len(a))) for _ in range(k)]),
}


class LazyCount:
    """Number of distinct values; "== 1" is decided with a single case distinction."""

    def __init__(self, a, dropna):
        self.a, self.dropna, self.n = a, dropna, None

    def _exact(self):
        if self.n is None:
            codes, u = self.a.factorize()
            self.n = len(u) + (0 if self.dropna else int((codes == -1).any()))
        return self.n

    def _one(self):
        d = [x for x in self.a._d if isinstance(x, SymReal) or x == x]
        if self.n is None and d and (len(d) == len(self.a._d) or self.dropna):
            fs = [cond(d[0], "eq", x) for x in d[1:]]
            if any(f is False for f in fs):
                return False
            fs = [z(f) for f in fs if f is not True]
            return core.CTX.branch(z3.And(*fs)) if fs else True
        return self._exact() == 1

    def __eq__(self, k):
        return self._one() if k == 1 else self._exact() == k

    def __ne__(self, k):
        return not self == k

    def __gt__(self, k):
        return self._exact() > k

    def __lt__(self, k):
        return self._exact() < k

    def __ge__(self, k):
        return self._exact() >= k

    def __le__(self, k):
        return self._exact() <= k

    def __int__(self):
        return self._exact()

    __index__ = __int__
    __hash__ = None


# --------------------------------------------------------------------------------------
# patches (installed for symbolic runs only)
# --------------------------------------------------------------------------------------


class Patches:
    def __init__(self):
        self.saved = []

    def set(self, obj, name, new):
        self.saved.append((obj, name, obj.__dict__.get(name, getattr(obj, name))))
        setattr(obj, name, new)

    def undo(self):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
        self.saved = []


def _contains_sym_obj(a):
    try:
        return any(isinstance(x, SymReal) for x in a)
    except TypeError:
        return False


def install():
    import pandas._testing as tm
    import pandas._testing.asserters as tma
    import pint_pandas
    from pandas.core import construction

    P = Patches()
    PA = pint_pandas.PintArray

    # PintArray: keep symbolic magnitudes in a SymArray.
    init0 = PA.__init__

    def init(self, values, dtype=None, copy=False):
        if isinstance(values, (list, tuple)) and _contains_sym_obj(values):
            values = SymArray(values)
        elif isinstance(values, np.ndarray) and values.dtype == object and _contains_sym_obj(values):
            values = SymArray(values)
        elif isinstance(values, ExtensionArray) and not isinstance(values, (SymArray, PA)) and values.dtype == object and _contains_sym_obj(values):
            values = SymArray(values)
        elif isinstance(values, pd.Series) and isinstance(values.array, SymArray):
            values = values.array
        elif hasattr(values, "magnitude") and not isinstance(values, PA):
            m = values.magnitude
            if isinstance(m, (list, tuple)) and _contains_sym_obj(m) or isinstance(m, np.ndarray) and m.dtype == object and _contains_sym_obj(m):
                values = type(values)(SymArray(m), values.units)
        return init0(self, values, dtype, copy)

    P.set(PA, "__init__", init)

    seti0 = PA.__setitem__

    def seti(self, key, value):
        if not isinstance(self._data, SymArray):
            v = value
            if isinstance(v, pd.Series):
                v = v.array
            if isinstance(v, PA):
                v = v._data
            elif hasattr(v, "magnitude"):
                v = v.magnitude
            if _symish(v) or isinstance(v, (list, tuple, np.ndarray)) and any(
                _symish(getattr(x, "magnitude", x)) for x in v
            ):
                self._data = SymArray(np.asarray(self._data, dtype=float))
        return seti0(self, key, value)

    P.set(PA, "__setitem__", seti)

    cst0 = PA.__dict__["_concat_same_type"].__func__

    def cst(cls, to_concat):
        if any(isinstance(a._data, SymArray) for a in to_concat):
            u = to_concat[0].units
            out = []
            for a in to_concat:
                m = a.quantity.to(u).magnitude
                out.extend(SymArray(m)._d)
            return cls(SymArray(out), u)
        return cst0(cls, to_concat)

    P.saved.append((PA, "_concat_same_type", PA.__dict__["_concat_same_type"]))
    PA._concat_same_type = classmethod(cst)

    # construction: object data holding symbolic numbers -> SymArray
    san0 = construction.sanitize_array

    def san(data, index, dtype=None, copy=False, *, allow_2d=False):
        if isinstance(data, SymReal):
            n = len(index) if index is not None else 1
            data = SymArray([data] * n)
            if dtype is not None and not isinstance(dtype, SymDtype):
                if isinstance(dtype, np.dtype) and dtype.kind == "f":
                    return data
                if isinstance(dtype, np.dtype):
                    raise Unsupported(f"dtype {dtype}")
        if isinstance(data, (list, tuple)) and _contains_sym_obj(data):
            try:
                data = SymArray(data)
            except Unsupported:
                pass
        if isinstance(data, SymArray) and isinstance(dtype, np.dtype):
            if dtype.kind == "f":
                return data.copy() if copy else data
        r = san0(data, index, dtype, copy, allow_2d=allow_2d)
        if isinstance(r, np.ndarray) and r.dtype == object and r.ndim == 1 and _contains_sym_obj(r):
            if dtype is None or (isinstance(dtype, np.dtype) and dtype.kind == "f"):
                try:
                    return SymArray(r)
                except Unsupported:
                    return r
        return r

    import pandas.core.frame
    import pandas.core.indexes.base
    import pandas.core.internals.construction as ic
    import pandas.core.series

    for mod in (construction, pandas.core.frame, pandas.core.series, pandas.core.indexes.base, ic):
        if hasattr(mod, "sanitize_array"):
            P.set(mod, "sanitize_array", san)

    # assert_series_equal on symbolic magnitudes
    ase0 = tm.assert_series_equal

    def ase(left, right, *args, **kw):
        la, ra = getattr(left, "array", None), getattr(right, "array", None)
        if isinstance(la, SymArray) or isinstance(ra, SymArray):
            if not (isinstance(left, pd.Series) and isinstance(right, pd.Series)):
                raise AssertionError("types")
            if len(left) != len(right):
                raise AssertionError("Series length are different")
            if kw.get("check_index", True):
                tm.assert_index_equal(left.index, right.index)
            if kw.get("check_freq", True) and isinstance(left.index, (pd.DatetimeIndex,)):
                assert left.index.freq == right.index.freq
            if kw.get("check_names", True) and left.name != right.name:
                raise AssertionError("names")
            x, y, _ = _pair(la, ra)
            rt, at = kw.get("rtol", 1e-5), kw.get("atol", 1e-8)
            fs = [close_formula(p, q, True, rt, at, True) for p, q in zip(x, y)]
            if any(f is False for f in fs):
                raise AssertionError("Series are different")
            fs = [z(f) for f in fs if f is not True]
            if fs and not core.CTX.branch(z3.And(*fs)):
                raise AssertionError("Series are different")
            return
        return ase0(left, right, *args, **kw)

    for mod in (tm, tma, pd.testing):
        if hasattr(mod, "assert_series_equal"):
            P.set(mod, "assert_series_equal", ase)

    # groupby: a function returning a Series is not an aggregation (as for ndarrays)
    import pandas.core.groupby.ops as gops

    cra0 = gops.check_result_array

    def cra(obj, dtype):
        if isinstance(obj, SymArray) and dtype != object:
            raise ValueError("Must produce aggregated value")
        return cra0(obj, dtype)

    P.set(gops, "check_result_array", cra)

    nun0 = pd.Series.nunique

    def nunique(self, dropna=True):
        a = self.array
        a = getattr(a, "_data", a)
        if isinstance(a, SymArray) and has_sym(a._d):
            return LazyCount(a, dropna)
        return nun0(self, dropna)

    P.set(pd.Series, "nunique", nunique)

    # scalar / Series entry points of np.isclose & co (C ufunc machinery on objects)
    for name, fn in (("isclose", isclose), ("allclose", allclose)):
        orig = getattr(np, name)

        def mk(orig=orig, fn=fn):
            def w(a, b, *args, **kw):
                if _symish(a) or _symish(b):
                    return fn(_strip(a), _strip(b), *args, **kw)
                return orig(a, b, *args, **kw)

            return w

        P.set(np, name, mk())
    for name, fn in (("isnan", _isnan), ("isinf", _isinf), ("isfinite", _isfin)):
        orig = getattr(np, name)

        def mk1(orig=orig, fn=fn):
            def w(a, *args, **kw):
                if isinstance(a, SymReal):
                    return bool(fn(a))
                if isinstance(a, SymArray):
                    return fn(a)
                if isinstance(a, pd.Series) and isinstance(a.array, SymArray):
                    return pd.Series(fn(a.array), a.index, name=a.name)
                if hasattr(a, "magnitude") and isinstance(getattr(a, "magnitude"), (SymReal, SymArray)):
                    return fn(a.magnitude)
                return orig(a, *args, **kw)

            return w

        P.set(np, name, mk1())
    return P


def _strip(a):
    if hasattr(a, "magnitude") and hasattr(a, "to_base_units"):
        m = a.magnitude
        if isinstance(m, (SymReal, SymArray)):
            return m
    if isinstance(a, pd.Series):
        return a.array
    return a


def _symish(a):
    if isinstance(a, (SymReal, SymArray)):
        return True
    if isinstance(a, pd.Series):
        return isinstance(a.array, SymArray)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return _contains_sym_obj(a)
    if isinstance(a, (list, tuple)):
        return _contains_sym_obj(a)
    if hasattr(a, "magnitude") and hasattr(a, "to_base_units"):
        return isinstance(a.magnitude, (SymReal, SymArray))
    return False
