import numpy as np
from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *
from fractions import Fraction as F

Q_ = pf.Q_

meta("V12",
     bounds="weighted average of up to 5 values / of dataframes up to 4x3; any weights in [-1000, 1000] (every zero pattern, zero sums), as list, dictionary, series (with other order or covering only part of the values) or dataframe; any pattern of up to 2 missing values; with and without unit",
     outside="more than 5 values; missing weights; sums of weights between 0 and 0.01 (in absolute value); values that differ less than 0.01; float rounding")


def ref(ctx, v, w, all0=None):
    """weighted average of list v with weights w; NaN in v = missing"""
    is0 = [ctx.branch(ctx.cond(x, "eq", 0)) for x in w]
    keep = [i for i in range(len(v)) if not is0[i]]
    nan = lambda x: not isinstance(x, SymReal) and x != x
    same = lambda xs: all(ctx.branch(ctx.cond(xs[0], "eq", x)) for x in xs[1:])
    if not keep:
        if all0 == "series":
            return None  # see below
        if any(nan(x) for x in v):
            return NAN
        return v[0] if same(v) else NAN
    v, w = [v[i] for i in keep], [w[i] for i in keep]
    if any(nan(x) for x in v):
        return NAN
    t = ssum(w)
    if ctx.branch(ctx.cond(t, "eq", 0)):
        return v[0] if same(v) else NAN
    return ssum([a * b for a, b in zip(v, w)]) / t


def tol(ctx, w):
    """sum of any weights is 0 or not close to 0"""
    t = ssum(w)
    if ctx.symbolic and isinstance(t, SymReal):
        from symx.core import z3, z

        ctx.assume(z3.Or(z(ctx.cond(t, "eq", 0)), z(ctx.cond(t, "ge", 0.01)), z(ctx.cond(t, "le", -0.01))))


def gap(ctx, v):
    """values are equal or at least 0.01 apart"""
    if ctx.symbolic:
        from symx.core import z3, z

        v = [x for x in v if isinstance(x, SymReal)]
        for i, a in enumerate(v):
            for b in v[:i]:
                ctx.assume(z3.Or(z(ctx.cond(a, "eq", b)), z(ctx.cond(a - b, "ge", 0.01)), z(ctx.cond(b - a, "ge", 0.01))))


def values(ctx, nm, n, miss=()):
    return [NAN if i in miss else ctx.real(f"{nm}{i}") for i in range(n)]


MISS = [(), (0,), (1,), (0, 2)]


@harness("V12", lambda t: [dict(n=n, miss=list(m), unit=u, form=f) for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4)) for m in MISS if not m or max(m) < n for u in (None, "MW") for f in ("list", "dict", "series", "reversed")
                           if t == "thorough" or (n + len(m) + len(f)) % 2 == 0 or (n == 3 and not m)], prio=1, max_paths=600)
def of_series(ctx, c):
    n = c["n"]
    v, w = values(ctx, "v", n, c["miss"]), reals(ctx, "w", n)
    tol(ctx, w)
    gap(ctx, v)
    i = list("abcde"[:n])
    s = ser(v, i, None, c["unit"])
    ws = {
        "list": lambda: list(w),
        "dict": lambda: dict(zip(i, w)),
        "series": lambda: ser(w, i),
        "reversed": lambda: ser(w[::-1], i[::-1]),
    }[c["form"]]()
    got = pf.wavg(s, ws)
    exp = ref(ctx, v, w, "series")
    g = val(got, c["unit"])
    if exp is None:  # no weight at all: missing, or the (identical) value
        if not core._isnan(g):
            for j in range(n):
                ctx.eq(g, v[j], "all weights zero: value")
    else:
        ctx.eq(g, exp, "weighted average")
    same_objects(ctx, vals(s), v, "input unchanged")


@harness("V12", lambda t: [dict(n=n, unit=u, w=w) for n in (2, 3, 5) for u in (None, "MW") for w in ("none", "equal", "part", "ints", "unitweights")])
def special_weights(ctx, c):
    """no weights, equal weights, weights for part of the values"""
    n = c["n"]
    v = values(ctx, "v", n)
    i = list("abcde"[:n])
    s = ser(v, i, None, c["unit"])
    if c["w"] == "none":
        got, exp = pf.wavg(s), ssum(v) / n
    elif c["w"] == "equal":
        k = ctx.scalar("k", nonzero=True)
        got, exp = pf.wavg(s, [k] * n), ssum(v) / n
    elif c["w"] == "part":
        w = reals(ctx, "w", n - 1, lo=1)
        got, exp = pf.wavg(s, ser(w, i[1:])), ssum([a * b for a, b in zip(v[1:], w)]) / ssum(w)
    elif c["w"] == "unitweights":
        w = reals(ctx, "w", n, lo=1)
        got, exp = pf.wavg(s, ser(w, i, None, "h")), ssum([a * b for a, b in zip(v, w)]) / ssum(w)
    else:
        got, exp = pf.wavg(s, list(range(1, n + 1))), ssum([a * (j + 1) for j, a in enumerate(v)]) * 2 / (n * (n + 1))
    ctx.eq(val(got, c["unit"]), exp, "weighted average")
    ctx.check(raises(lambda: pf.wavg(s, ser([1.0, 1.0], ["a", "q"]))), "weight without value rejected")
    ctx.check(raises(lambda: pf.wavg(s, 3.0)), "single number as weights rejected")


DF = [dict(r=1, k=2), dict(r=2, k=2), dict(r=1, k=3), dict(r=3, k=2)]


def table(ctx, c, miss):
    v = [[NAN if (a, b) in miss else ctx.real(f"v{a}_{b}") for b in range(c["k"])] for a in range(c["r"])]
    cols, rows = list("xyz"[: c["k"]]), list("abcd"[: c["r"]])
    df = pd.DataFrame({x: ser([v[a][b] for a in range(c["r"])], rows, None, c["unit"]) for b, x in enumerate(cols)})
    return v, df, rows, cols


def dcfg(tier):
    out = []
    for i, s in enumerate(DF):
        for miss in ([], [(0, 0)], [(0, 1)]):
            for axis in (0, 1):
                for u in (None, "Eur/MWh"):
                    if tier == "thorough" or ((i + len(miss) + axis + bool(u)) % 2 == 0 and i < 3):
                        out.append(dict(s, miss=miss, axis=axis, unit=u))
    return out


def elements(s, unit):
    """values of a series that may mix quantities and (unitless) missing values"""
    if s.dtype != object:
        return vals(s, unit) if not s.isna().all() else [NAN] * len(s)
    out = []
    for x in s:
        if not hasattr(x, "magnitude") and not isinstance(x, SymReal) and x != x:
            out.append(NAN)
        elif unit and not hasattr(x, "magnitude"):
            raise AssertionError("value without unit")
        else:
            out.append(val(x, unit))
    return out


@harness("V12", dcfg, max_paths=400, prio=1)
def of_frame_weights_series(ctx, c):
    """one weight per row (axis 0) or per column (axis 1)"""
    miss = [tuple(x) for x in c["miss"]]
    v, df, rows, cols = table(ctx, c, miss)
    for row in v:
        gap(ctx, row)
    for col in zip(*v):
        gap(ctx, col)
    keys = rows if c["axis"] == 0 else cols
    w = reals(ctx, "w", len(keys))
    tol(ctx, w)
    got = pf.wavg(df, ser(w, keys), axis=c["axis"])
    out = cols if c["axis"] == 0 else rows
    lines = list(zip(*v)) if c["axis"] == 0 else v
    ctx.check(list(got.index) == out, "index")
    g = elements(got, c["unit"])
    for j, l in enumerate(lines):
        ctx.eq(g[j], ref(ctx, list(l), w), f"average[{out[j]}]")
    same_objects(ctx, [x for k in cols for x in vals(df[k])], [v[a][b] for b in range(c["k"]) for a in range(c["r"])], "input unchanged")


@harness("V12", dcfg, max_paths=400)
def of_frame_weights_frame(ctx, c):
    """one weight per value"""
    miss = [tuple(x) for x in c["miss"]]
    v, df, rows, cols = table(ctx, c, miss)
    w = [[ctx.real(f"w{a}_{b}") for b in range(c["k"])] for a in range(c["r"])]
    tr = (lambda m: m) if c["axis"] == 1 else (lambda m: [list(x) for x in zip(*m)])
    for l, m in zip(tr(v), tr(w)):
        gap(ctx, l)
        tol(ctx, m)
    wf = pd.DataFrame({x: ser([w[a][b] for a in range(c["r"])], rows) for b, x in enumerate(cols)})
    got = pf.wavg(df, wf, axis=c["axis"])
    out = cols if c["axis"] == 0 else rows
    ctx.check(list(got.index) == out, "index")
    g = elements(got, c["unit"])
    for j, (l, m) in enumerate(zip(tr(v), tr(w))):
        ctx.eq(g[j], ref(ctx, l, m), f"average[{out[j]}]")


@harness("V12", lambda t: [dict(s, unit=u, axis=a, w=w) for s in DF[1:] + [dict(r=2, k=3)] for a in (0, 1) for u in (None, "MW", "mixed") for w in ("none", "part", "permuted", "list", "dict", "frame part") if not (u == "mixed" and a == 0) and not (w in ("part", "frame part") and 1 in (s["r"], s["k"])) and not (w == "frame part" and a == 0 and s["k"] == 2)])
def frame_forms(ctx, c):
    """no weights; weights in another order or for part of the rows, columns or values; columns in different units"""
    r, k, axis = c["r"], c["k"], c["axis"]
    v = [reals(ctx, f"v{a}_", k) for a in range(r)]
    cols, rows = list("xyz"[:k]), list("abcd"[:r])
    units = [c["unit"]] * k if c["unit"] != "mixed" else ["kW", "MW", "GW"][:k]
    df = pd.DataFrame({x: ser([v[a][b] for a in range(r)], rows, None, units[b]) for b, x in enumerate(cols)})
    if c["unit"] == "mixed":
        v = [[x * f for x, f in zip(row, (F(1, 1000), 1, 1000))] for row in v]
    unit = "MW" if c["unit"] == "mixed" else c["unit"]
    out, keys = (cols, rows) if axis == 0 else (rows, cols)
    lines = [list(x) for x in zip(*v)] if axis == 0 else v
    n = len(keys)
    w = reals(ctx, "w", n, lo=1)
    mean = lambda l, w: ssum([a * b for a, b in zip(l, w)]) / ssum(w)
    if c["w"] == "none":
        got, exp = pf.wavg(df, axis=axis), [ssum(l) / n for l in lines]
    elif c["w"] == "part":
        got, exp = pf.wavg(df, ser(w[1:], keys[1:]), axis=axis), [mean(l[1:], w[1:]) for l in lines]
    elif c["w"] == "permuted":
        got, exp = pf.wavg(df, ser(w[::-1], keys[::-1]), axis=axis), [mean(l, w) for l in lines]
    elif c["w"] == "list":
        got, exp = pf.wavg(df, list(w), axis=axis), [mean(l, w) for l in lines]
    elif c["w"] == "dict":
        got, exp = pf.wavg(df, dict(zip(keys[::-1], w[::-1])), axis=axis), [mean(l, w) for l in lines]
    else:
        # weights for all but the last row and column, in another order
        m = [reals(ctx, f"m{a}_", k, lo=1) for a in range(r)]
        rr, kk = list(range(r - 1))[::-1], list(range(k - 1))[::-1]
        wf = pd.DataFrame({cols[b]: ser([m[a][b] for a in rr], [rows[a] for a in rr]) for b in kk})
        got = pf.wavg(df, wf, axis=axis)
        if axis == 0:
            out, exp = [cols[b] for b in kk], [mean([v[a][b] for a in rr], [m[a][b] for a in rr]) for b in kk]
        else:
            out, exp = [rows[a] for a in rr], [mean([v[a][b] for b in kk], [m[a][b] for b in kk]) for a in rr]
    ctx.check(sorted(got.index) == sorted(out), "index")
    g = dict(zip(got.index, elements(got, unit)))
    for key, e in zip(out, exp):
        ctx.eq(g[key], e, f"average[{key}]")
    ctx.check(raises(lambda: pf.wavg(df, ser(w + [1.0], keys + ["q"]), axis=axis)), "weight without values rejected")
    ctx.check(raises(lambda: pf.wavg(df, [*w, 1.0], axis=axis)), "too many weights rejected")


@harness("V12", lambda t: [dict(case=w, unit=u) for u in (None, "MW") for w in ("frame", "frame0", "quantities", "series")])
def mixed_weights(ctx, c):
    """weights in different units of the same dimension"""
    case = c["case"]
    v = [[ctx.real(f"v{a}_{b}") for b in range(2)] for a in range(2)]
    cols, rows = ["x", "y"], ["a", "b"]
    mean = lambda l, w: ssum([a * b for a, b in zip(l, w)]) / ssum(w)
    mkf = lambda m, us: pd.DataFrame({x: ser([m[a][b] for a in range(2)], rows, None, us[b]) for b, x in enumerate(cols)})
    df = mkf(v, [c["unit"]] * 2)
    if case.startswith("frame"):
        w = [[ctx.real(f"w{a}_{b}", lo=1) for b in range(2)] for a in range(2)]
        wf, e = mkf(w, ["MWh", "kWh"]), [[x, y / 1000] for x, y in w]
        if case == "frame":
            got, exp = pf.wavg(df, wf, axis=1), [mean(a, b) for a, b in zip(v, e)]
        else:
            got, exp = pf.wavg(df, wf), [mean([v[0][b], v[1][b]], [e[0][b], e[1][b]]) for b in range(2)]
        ctx.check(list(got.index) == (rows if case == "frame" else cols), "index")
        g = elements(got, c["unit"])
    else:
        k = [ctx.scalar("k0", lo=1), ctx.scalar("k1", lo=1)]
        q = [Q_(k[0], "MWh"), Q_(k[1], "kWh")]
        e = [k[0], k[1] / 1000]
        a = np.empty(2, dtype=object)
        a[0], a[1] = q[1], q[0]
        w = pd.Series(a, ["y", "x"])
        if case == "series":
            g, exp = [val(pf.wavg(df.iloc[0], w), c["unit"])] if c["unit"] is None else [val(pf.wavg(ser(v[0], cols, None, "MW"), w), "MW")], [mean(v[0], e)]
        else:
            g, exp = elements(pf.wavg(df, w, axis=1), c["unit"]), [mean(l, e) for l in v]
    for j, x in enumerate(exp):
        ctx.eq(g[j], x, f"average[{j}]")
