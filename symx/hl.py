"""Helpers shared by the value harnesses: build symbolic portfolio lines and compare the real
objects with the reference model."""
from __future__ import annotations

import datetime as dt
import math

import pandas as pd
import portfolyo as pf

from . import core
from .core import SymReal, Unsupported, ssum
from .oracle import NAN, Ix, Ref, parse_freq

BERLIN = "Europe/Berlin"
UNITS = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "nodim": "dimensionless"}


# -- values -------------------------------------------------------------------------------


def vals(x, unit=None):
    """Elements of a Series / array as floats or symbolic numbers, converted to ``unit``."""
    arr = getattr(x, "array", x)
    if type(arr).__name__ == "PintArray":
        if unit is not None:
            arr = arr.to(unit) if hasattr(arr, "to") and arr.units != unit else arr
            if str(arr.units) != str(pf.tools.unit.ureg.Unit(unit)):
                arr = type(arr)(arr.quantity.to(unit))
        d = arr._data
    elif unit is not None and unit != "dimensionless":
        raise AssertionError(f"no unit, expected {unit}")
    else:
        d = arr
    if hasattr(d, "_d"):
        return list(d._d)
    out = []
    for v in d:
        if hasattr(v, "magnitude"):
            v = v.to(unit).magnitude if unit else v.magnitude
        if isinstance(v, SymReal):
            out.append(v)
        elif v is None or v is pd.NA:
            out.append(NAN)
        else:
            out.append(float(v))
    return out


def val(x, unit=None):
    """A scalar."""
    if hasattr(x, "magnitude"):
        if unit:
            x = x.to(unit)
        x = x.magnitude
    if isinstance(x, SymReal):
        return x
    if hasattr(x, "_d"):
        return x._d[0]
    return float(x)


def ser(values, index, name=None, unit=None):
    if any(isinstance(v, SymReal) for v in values):
        from .pdsym import SymArray

        s = pd.Series(SymArray(values), index, name=name)
    else:
        s = pd.Series([float(v) for v in values], index, dtype=float, name=name)
    return s.astype(f"pint[{unit}]") if unit else s


def reals(ctx, name, n, **kw):
    return [ctx.real(f"{name}{i}", **kw) for i in range(n)]


def raises(fn, exc=Exception):
    """Whether calling fn raises (an Unsupported of the encoding is passed on)."""
    from .runner import caused_by_unsupported

    try:
        fn()
    except Exception as e:
        if caused_by_unsupported(e):
            raise
        return isinstance(e, exc)
    return False


# -- index --------------------------------------------------------------------------------


def mkix(c):
    """config -> Ix; keys freq, start, n, tz (opt)"""
    return Ix.make(c["freq"], c["start"], c["n"], c.get("tz"), dt.time.fromisoformat(c["sod"]) if c.get("sod") else None)


def same_freq(f, freq):
    if f is None:
        return False
    try:
        return parse_freq(getattr(f, "freqstr", f)) == parse_freq(freq)
    except ValueError:
        return False


def check_index(ctx, index, ix, label, freq=True):
    ctx.check(isinstance(index, pd.DatetimeIndex), f"{label}.index type")
    tz = None if index.tz is None else str(index.tz)
    ctx.check(tz == ix.tz, f"{label}.index timezone")
    lefts = [t.to_pydatetime() for t in (index if tz is None else index.tz_convert("UTC").tz_localize(None))]
    ctx.check(lefts == ix.lefts, f"{label}.index timestamps")
    if freq:
        ctx.check(same_freq(index.freq, ix.freq), f"{label}.index frequency")
    return lefts == ix.lefts


def check_series(ctx, s, ix, expected, label, unit=None, freq=True):
    if check_index(ctx, s.index, ix, label, freq):
        got = vals(s, unit)
        for i, (a, b) in enumerate(zip(got, expected)):
            ctx.eq(a, b, f"{label}[{i}]")


# -- lines --------------------------------------------------------------------------------


def mkflat(ctx, name, kind, ix, how=None, nz=False, **kw):
    """A flat portfolio line with symbolic content -> (PfLine, Ref)."""
    n, i = len(ix), ix.pd()
    d = ix.durs
    if kind == "VOLUME":
        if how == "w":
            w = reals(ctx, name + "w", n, nonzero=nz, **kw)
            return pf.PfLine({"w": ser(w, i)}), Ref(kind, ix, q=[a * b for a, b in zip(w, d)])
        q = reals(ctx, name + "q", n, nonzero=nz, **kw)
        return pf.PfLine({"q": ser(q, i)}), Ref(kind, ix, q=q)
    if kind == "PRICE":
        p = reals(ctx, name + "p", n, nonzero=nz, **kw)
        return pf.PfLine({"p": ser(p, i)}), Ref(kind, ix, p=p)
    if kind == "REVENUE":
        r = reals(ctx, name + "r", n, nonzero=nz, **kw)
        return pf.PfLine({"r": ser(r, i)}), Ref(kind, ix, r=r)
    if kind == "COMPLETE":
        p = reals(ctx, name + "p", n, **kw)
        if how == "q":
            q = reals(ctx, name + "q", n, nonzero=nz, **kw)
            data = {"q": ser(q, i), "p": ser(p, i)}
        else:
            w = reals(ctx, name + "w", n, nonzero=nz, **kw)
            q = [a * b for a, b in zip(w, d)]
            data = {"w": ser(w, i), "p": ser(p, i)}
        return pf.PfLine(data), Ref(kind, ix, q=q, r=[a * b for a, b in zip(q, p)], p=p)
    raise ValueError(kind)


def mkline(ctx, name, kind, ix, struct="flat", how=None, nz=False, **kw):
    """struct: 'flat' | 'nested' (2 flat children) | 'deep' (child with children) |
    comma separated child names, e.g. 'a,b' or 'a,b(x,y)'"""
    if struct == "flat":
        return mkflat(ctx, name, kind, ix, how, nz, **kw)
    struct = {"nested": "a,b", "deep": "a,b(x,y)"}.get(struct, struct)
    ch, ref = {}, {}
    for part in _split(struct):
        nm, _, rest = part.partition("(")
        ch[nm], ref[nm] = mkline(ctx, f"{name}{nm}_", kind, ix, rest[:-1] if rest else "flat", how, nz, **kw)
    return pf.PfLine(ch), Ref.nested(ref)


def _split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "," and not depth:
            out.append(cur)
            cur = ""
            continue
        depth += (c == "(") - (c == ")")
        cur += c
    return out + [cur]


AVAIL = {"VOLUME": "wq", "PRICE": "p", "REVENUE": "r", "COMPLETE": "wqpr"}


def check_complete_price(ctx, p, q, r, label, exp=None):
    """price * volume == revenue; a number wherever there is volume"""
    isn = core._isnan(p)
    inf = isinstance(p, float) and not isinstance(p, SymReal) and math.isinf(p)
    if exp is not None and not core._isnan(exp):
        ctx.eq(p, exp, label)
    elif isn or inf:
        ctx.check(ctx.cond(q, "eq", 0), label + " missing though volume is non-zero")
    else:
        ctx.eq(p * q, r, label + "*q=r")


def check_values(ctx, get, ref, label, check_p=True):
    """get(col) -> list of values"""
    ix = ref.ix
    if ref.kind in ("VOLUME", "COMPLETE"):
        q, w = get("q"), get("w")
        ctx.check(len(q) == len(w) == len(ix), f"{label} length")
        for i, h in enumerate(ix.durs):
            ctx.eq(q[i], ref.q[i], f"{label}.q[{i}]")
            ctx.eq(w[i] * h, ref.q[i], f"{label}.w*duration[{i}]")
    if ref.kind in ("REVENUE", "COMPLETE"):
        r = get("r")
        for i in range(len(ix)):
            ctx.eq(r[i], ref.r[i], f"{label}.r[{i}]")
    if ref.kind == "PRICE":
        p = get("p")
        for i in range(len(ix)):
            ctx.eq(p[i], ref.p[i], f"{label}.p[{i}]")
    if ref.kind == "COMPLETE" and check_p:
        p = get("p")
        for i in range(len(ix)):
            check_complete_price(ctx, p[i], ref.q[i], ref.r[i], f"{label}.p[{i}]")


def check_line(ctx, pfl, ref, label, children=True, freq=True, check_p=True):
    """The real portfolio line equals the reference in every observable respect."""
    ctx.check(isinstance(pfl, pf.PfLine), f"{label} is a portfolio line")
    ctx.check(pfl.kind.name == ref.kind, f"{label}.kind")
    if not check_index(ctx, pfl.index, ref.ix, label, freq):
        return
    ctx.check(sorted(pfl.df.columns) == sorted(AVAIL[ref.kind]), f"{label} columns")
    check_values(ctx, lambda c: vals(getattr(pfl, c), UNITS[c]), ref, label, check_p)
    if children:
        ctx.check(pfl.structure.name == ("FLAT" if ref.flat else "NESTED"), f"{label}.structure")
        if not ref.flat and pfl.structure.name == "NESTED":
            ctx.check(sorted(pfl) == sorted(ref.children), f"{label} child names")
            for k in ref.children:
                if k in pfl:
                    check_line(ctx, pfl[k], ref.children[k], f"{label}/{k}", True, freq, check_p)


def same_objects(ctx, before, after, label):
    for i, (a, b) in enumerate(zip(before, after)):
        ctx.eq(a, b, f"{label}[{i}]")


def snapshot(pfl):
    """all observable values of a line (for mutation checks)"""
    out = []
    for c in sorted(pfl.df.columns):
        out += vals(pfl.df[c])
    if pfl.structure.name == "NESTED":
        for k in sorted(pfl):
            out += snapshot(pfl[k])
    return out


# -- peak periods, products --------------------------------------------------------------

PEAKS = {  # name -> (left hour, right hour, isoweekdays); right 24 = midnight
    "german": (8, 20, (1, 2, 3, 4, 5)),
    "morning": (0, 9, (1, 2, 3, 4, 5, 6, 7)),
    "evening": (17.5, 24, (1, 2, 3, 4, 5, 6, 7)),
    "weekend": (0, 24, (6, 7)),
    "mon7": (7, 19, (1,)),
}


def mkpeak(name):
    """the function under test"""
    if name == "german":
        return pf.germanpower_peakfn
    l, r, days = PEAKS[name]
    t = lambda h: None if h in (0, 24) else dt.time(int(h), int(h % 1 * 60))
    return pf.create_peakfn(t(l), t(r), list(days))


def is_peak(ix, name):
    """reference"""
    from .oracle import to_wall

    l, r, days = PEAKS[name]
    out = []
    for x in ix.lefts:
        w = to_wall(x, ix.tz)
        out.append(w.isoweekday() in days and l <= w.hour + w.minute / 60 < r)
    return out


def products(ix, freq, peak=None):
    """-> (positions that are in full products, list of position-groups)"""
    _, groups = ix.asfreq(freq)
    groups = [[k for k, _ in g] for g in groups]
    keep = [k for g in groups for k in g]
    if peak:
        pk = is_peak(ix, peak)
        groups = [h for g in groups for h in ([k for k in g if pk[k]], [k for k in g if not pk[k]]) if h]
    return keep, groups


def hedge_ref(ix, q, p, how, freq, peak=None):
    """-> Ref of the hedge (COMPLETE), over the full products"""
    keep, groups = products(ix, freq, peak)
    d = ix.durs
    w, pr = {}, {}
    for g in groups:
        dur = ssum([d[k] for k in g])
        ph = ssum([p[k] * d[k] for k in g]) / dur
        if how == "vol":
            wh = ssum([q[k] for k in g]) / dur
        else:
            wh = ssum([q[k] * p[k] for k in g]) / ssum([p[k] * d[k] for k in g])
        for k in g:
            w[k], pr[k] = wh, ph
    six = ix.sub(keep)
    hq = [w[k] * d[k] for k in keep]
    return Ref("COMPLETE", six, q=hq, r=[a * pr[k] for a, k in zip(hq, keep)], p=[pr[k] for k in keep])
