import itertools

from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V18",
     bounds="series of 1-7 values (days incl. DST days, hours, months, integers as index), every pattern of missing values, maximum gap 0-4; dataframes of 2 columns; symbolic values in [-1000, 1000]",
     outside="series with units (the function does not support them); longer series; more than 4 consecutive missing values; float rounding")


def ref(v, x, maxgap):
    out = list(v)
    n = len(v)
    k = 0
    isn = lambda a: not isinstance(a, SymReal) and a != a
    while k < n:
        if not isn(v[k]):
            k += 1
            continue
        j = k
        while j < n and isn(v[j]):
            j += 1
        if k > 0 and j < n and j - k <= maxgap:
            for m in range(k, j):
                out[m] = v[k - 1] + (v[j] - v[k - 1]) * (x[m] - x[k - 1]) / (x[j] - x[k - 1])
        k = j
    return out


def index(kind, n):
    from fractions import Fraction

    if kind == "int":
        return pd.Index([0, 1, 3, 4, 8, 9, 10][:n]), [Fraction(x) for x in [0, 1, 3, 4, 8, 9, 10][:n]]
    c = {"D": dict(freq="D", start="2024-03-29 06:00", tz=B), "h": dict(freq="h", start="2024-02-29", tz=None), "MS": dict(freq="MS", start="2024-01-01", tz=None)}[kind]
    ix = mkix(dict(c, n=n))
    return ix.pd(), [Fraction(int((t - ix.lefts[0]).total_seconds()), 3600) for t in ix.lefts]


def cfgs(tier):
    out = []
    top = 6 if tier == "quick" else 7
    for n in range(1, top + 1):
        for m in range(2**n):
            miss = [k for k in range(n) if m >> k & 1]
            kinds = ("D", "h", "MS", "int") if tier == "thorough" or n <= 3 else [("D", "h", "MS", "int")[(m + n) % 4]]
            for k in kinds:
                out.append(dict(n=n, miss=miss, index=k, unit=None))
    # several patterns per task
    by = {}
    for c in out:
        by.setdefault((c["n"], c["index"], c["unit"]), []).append(c["miss"])
    return [dict(n=n, index=k, unit=u, miss=ms[j : j + 16]) for (n, k, u), ms in by.items() for j in range(0, len(ms), 16)]


@harness("V18", cfgs, max_paths=20)
def fill(ctx, c):
    i, x = index(c["index"], c["n"])
    n = c["n"]
    a = reals(ctx, "v", n)
    for miss in c["miss"]:
        v = [NAN if k in miss else a[k] for k in range(n)]
        s = ser(v, i, "nm", c["unit"])
        for maxgap in (0, 1, 2, 3, 4):
            got = pf.tools.frame.fill_gaps(s, maxgap)
            ctx.check(list(got.index) == list(i), "index")
            for k, (g, e) in enumerate(zip(vals(got, c["unit"]), ref(v, x, maxgap))):
                ctx.eq(g, e, f"missing {miss}, maxgap {maxgap}: value {k}")
        same_objects(ctx, vals(s, c["unit"]), v, "input unchanged")
        for k, (g, e) in enumerate(zip(vals(pf.tools.frame.fill_gaps(s), c["unit"]), ref(v, x, 2))):
            ctx.eq(g, e, f"missing {miss}, default: value {k}")


@harness("V18", lambda t: [dict(n=5, index=k, miss=[a, b]) for k in ("D", "int") for a in ([1], [0, 2], [1, 2, 3]) for b in ([3], [1, 2], [])])
def frame(ctx, c):
    """each column on its own"""
    i, x = index(c["index"], c["n"])
    cols = {}
    for nm, miss, u in zip("ab", c["miss"], (None, None)):
        cols[nm] = ([NAN if k in miss else ctx.real(f"{nm}{k}") for k in range(c["n"])], u)
    df = pd.DataFrame({nm: ser(v, i, None, u) for nm, (v, u) in cols.items()})
    for maxgap in (1, 2, 3):
        got = pf.tools.frame.fill_gaps(df, maxgap)
        ctx.check(list(got.columns) == ["a", "b"], "columns")
        for nm, (v, u) in cols.items():
            for k, (g, e) in enumerate(zip(vals(got[nm], u), ref(v, x, maxgap))):
                ctx.eq(g, e, f"maxgap {maxgap}: {nm}[{k}]")
