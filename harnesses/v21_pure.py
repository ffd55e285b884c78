import functools

from harnesses.v09_pfstate import state
from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V21",
     bounds="every public operation on 1-2 portfolio lines (all kinds, flat / nested / nested in nested), portfolio states, or series / dataframes / indices (with and without unit, missing values, frequency), over 1-4 months, days or a DST day of hours; objects compared before and after in all respects; changes to the data that a line was created from; up to 50 symbolic values in [-1000, 1000]",
     outside="direct modification of a line's own dataframe; plotting")

KINDS = ["VOLUME", "PRICE", "REVENUE", "COMPLETE"]
STRUCT = ["flat", "a,b", "a,b(x,y)"]
IX = [
    dict(freq="MS", start="2024-01-01", n=3, tz=B),
    dict(freq="D", start="2024-03-30", n=3, tz=B),
    dict(freq="h", start="2024-03-31", n=23, tz=B),
]


def snap(o):
    """-> (everything that can be compared exactly, list of values)"""
    if isinstance(o, (tuple, list)) and not (o and isinstance(o[0], SymReal)):
        p = [snap(x) for x in o]
        return [x for x, _ in p], [v for _, x in p for v in x]
    if isinstance(o, dict):
        p = {k: snap(x) for k, x in o.items()}
        return [(k, id(o[k]), x) for k, (x, _) in p.items()], [v for _, x in p.values() for v in x]
    if isinstance(o, pd.DatetimeIndex):
        return ["index", list(o), o.freq, str(o.tz), o.name], []
    if isinstance(o, pd.Series):
        return ["series", snap(o.index) if isinstance(o.index, pd.DatetimeIndex) else list(o.index), o.name, str(o.dtype)], vals(o)
    if isinstance(o, pd.DataFrame):
        return ["frame", snap(o.index) if isinstance(o.index, pd.DatetimeIndex) else list(o.index), list(o.columns), o.columns.nlevels, [str(t) for t in o.dtypes]], [
            v for j in range(o.shape[1]) for v in vals(o.iloc[:, j])]
    if isinstance(o, pf.PfLine):
        ch = [(k, id(x), snap(x)) for k, x in o.children.items()] if o.structure.name == "NESTED" else []
        d, v = snap(o.df)
        return ["line", o.kind.name, type(o).__name__, id(o.df), d, [(k, i, a) for k, i, (a, _) in ch]], v + [x for _, _, (_, b) in ch for x in b]
    if isinstance(o, pf.PfState):
        parts = [o.offtake, o.unsourcedprice, o.sourced]
        return [snap(x)[0][2:3] + snap(x)[0][4:5] for x in parts], [v for x in parts for v in snap(x)[1]]
    if isinstance(o, SymReal) or isinstance(o, float):
        return [], [o]
    return [o], []


def unchanged(ctx, operands, fn, label):
    before = snap(operands)
    try:
        fn(*operands)
    except Exception as e:
        from symx.runner import caused_by_unsupported

        if caused_by_unsupported(e):
            raise
        # not possible for these operands; whether that is right, is decided elsewhere
    after = snap(operands)
    ctx.check(before[0] == after[0], f"{label}: operands changed (index, names, type or children)")
    ctx.check(len(before[1]) == len(after[1]), f"{label}: operands changed (number of values)")
    for i, (a, b) in enumerate(zip(before[1], after[1])):
        ctx.eq(b, a, f"{label}: value changed [{i}]")


def kw(c):
    return dict(lo=1) if c["kind"] == "COMPLETE" else {}


UN = {
    "neg": lambda a: -a,
    "times 2": lambda a: a * 2,
    "half": lambda a: a / 2,
    "times quantity": lambda a: a * pf.Q_(3, ""),
    "plus 0": lambda a: a + 0,
    "plus None": lambda a: a + None,
    "plus quantity": lambda a: a + pf.Q_(3, {"VOLUME": "MW", "PRICE": "Eur/MWh", "REVENUE": "Eur", "COMPLETE": "MW"}[a.kind.name]),
    "asfreq QS": lambda a: a.asfreq("QS"),
    "asfreq MS": lambda a: a.asfreq("MS"),
    "asfreq D": lambda a: a.asfreq("D"),
    "flatten": lambda a: a.flatten(),
    "parts": lambda a: [getattr(a, x) for x in ("volume", "price", "revenue", "w", "q", "p", "r") if hasattr(a, x)],
    "loc": lambda a: a.loc[a.index[1] :],
    "slice": lambda a: a.slice[a.index[1] :],
    "reindex": lambda a: a.reindex(a.index[1:]),
    "map_to_year": lambda a: pf.map_to_year(a, 2025),
    "po": lambda a: a.po(pf.germanpower_peakfn, "MS"),
    "dataframe": lambda a: a.dataframe("wr"),
    "dataframe without unit": lambda a: a.dataframe(has_units=False),
    "new line": lambda a: pf.PfLine(a),
    "as child": lambda a: pf.PfLine({"one": a, "two": a}),
    "equal": lambda a: a == a,
    "bool": lambda a: bool(a),
    "drop child": lambda a: a.drop_child("a") if a.structure.name == "NESTED" else None,
    "set child": lambda a: a.set_child("c", a["a"]) if a.structure.name == "NESTED" else None,
    "replace child": lambda a: a.set_child("a", a["a"] * 2) if a.structure.name == "NESTED" else None,
    "get child": lambda a: (a["a"], a["b"] * 2) if a.structure.name == "NESTED" else None,
    "iterate": lambda a: list(a.items()) if a.structure.name == "NESTED" else None,
}


def un_cfgs(tier):
    out = []
    for i, x in enumerate(IX):
        for j, k in enumerate(KINDS):
            for l, s in enumerate(STRUCT):
                if i == 2 and l == 2:
                    continue
                if tier == "thorough" or (i + j + l) % 3 == 0:
                    out.append(dict(x, kind=k, struct=s))
    return out


@harness("V21", un_cfgs)
def unary(ctx, c):
    ix = mkix(c)
    a, _ = mkline(ctx, "a", c["kind"], ix, c["struct"], how="q", **kw(c))
    for name, fn in UN.items():
        if name == "bool" and c["kind"] != "COMPLETE":
            continue  # many paths; nothing to change
        unchanged(ctx, [a], fn, name)
    i = ix.pd()
    f = ser(reals(ctx, "f", len(ix), lo=1), i)
    unchanged(ctx, [a, f], lambda a, f: a * f, "times series")
    unchanged(ctx, [a, f], lambda a, f: a / f, "divided by series")


BIN = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "ratio": lambda a, b: a / b,
    "union": lambda a, b: a | b,
    "product": lambda a, b: a * b,
    "equal": lambda a, b: a == b,
    "children": lambda a, b: pf.PfLine({"one": a, "two": b}),
    "concat": lambda a, b: pf.concat([a.loc[: a.index[0]], b.loc[b.index[1] :]]),
    "intersection": lambda a, b: pf.intersection(a, b),
    "flex intersection": lambda a, b: pf.intersection(a, b, ignore_freq=True, ignore_tz=True, ignore_start_of_day=True),
    "hedge vol": lambda a, b: a.hedge_with(b, "vol"),
    "hedge val": lambda a, b: a.hedge_with(b, "val", pf.germanpower_peakfn),
    "set child": lambda a, b: a.set_child("z", b) if a.structure.name == "NESTED" else None,
}


def bin_cfgs(tier):
    out, n = [], 0
    for i, x in enumerate(IX[:2]):
        for ka in KINDS:
            for kb in KINDS:
                for l, sa in enumerate(STRUCT):
                    for m, sb in enumerate(STRUCT):
                        n += 1
                        if tier == "thorough" or n % 11 == 0:
                            out.append(dict(x, kind=ka, kb=kb, struct=sa, sb=sb))
    out += [dict(IX[0], n=1, kind=k, kb=k, struct=s, sb=s, equal=True) for k in KINDS for s in STRUCT[:2]]
    return out


@harness("V21", bin_cfgs)
def binary(ctx, c):
    ix = mkix(c)
    a, _ = mkline(ctx, "a", c["kind"], ix, c["struct"], how="q", lo=1, hi=100)
    b, _ = mkline(ctx, "b", c["kb"], ix, c["sb"], how="q", lo=301)  # no zero volume in sum or difference
    for name, fn in BIN.items():
        if (name == "equal") == bool(c.get("equal")):
            unchanged(ctx, [a, b], fn, name)


STATE_OPS = ['create', 'set offtake', 'set price', 'set sourced', 'add sourced', 'asfreq', 'loc', 'slice', 'add', 'subtract', 'times', 'neg', 'equal', 'dataframe', 'parts', 'concat', 'intersection', 'hedge', 'source', 'map to year']


@harness("V21", lambda t: [dict(x, so=so, ss=ss, op=op) for i, x in enumerate(IX[:2]) for so, ss in [("flat", "flat"), ("a,b", "flat"), ("flat", "a,b")] for op in STATE_OPS if t == "thorough" or ss == "flat"])
def states(ctx, c):
    ix = mkix(c)
    a, *_ = state(ctx, c, ix, "a")
    b, *_ = state(ctx, c, ix, "b", ko=dict(lo=-250, hi=-230), ks=dict(lo=210, hi=220))
    vol, _ = mkline(ctx, "v", "VOLUME", ix, "flat", "q", lo=-1000, hi=-600)
    prc, _ = mkline(ctx, "p", "PRICE", ix, "flat", lo=1)
    com, _ = mkline(ctx, "c", "COMPLETE", ix, "flat", "q", lo=1, hi=200)
    X = {
        "create": (lambda v, p, s: pf.PfState(v, p, s), [vol, prc, com]),
        "set offtake": (lambda a, v: a.set_offtakevolume(v), [a, vol]),
        "set price": (lambda a, v: a.set_unsourcedprice(v), [a, prc]),
        "set sourced": (lambda a, v: a.set_sourced(v), [a, com]),
        "add sourced": (lambda a, v: a.add_sourced(v), [a, com]),
        "asfreq": (lambda a: a.asfreq("QS" if c["freq"] == "MS" else "MS"), [a]),
        "loc": (lambda a: a.loc[a.index[1] :], [a]),
        "slice": (lambda a: a.slice[a.index[1] :], [a]),
        "add": (lambda a, b: a + b, [a, b]),
        "subtract": (lambda a, b: a - b, [a, b]),
        "times": (lambda a: a * 2, [a]),
        "neg": (lambda a: -a, [a]),
        "equal": (lambda a, b: a == b, [a, b]),
        "dataframe": (lambda a: a.dataframe(), [a]),
        "parts": (lambda a: [a.netposition, a.pnl_cost, a.sourcedfraction, a.unsourced], [a]),
        "concat": (lambda a, b: pf.concat([a.loc[: a.index[0]], b.loc[b.index[1] :]]), [a, b]),
        "intersection": (lambda a, b: pf.intersection(a, b), [a, b]),
        "hedge": (lambda a: a.hedge_of_unsourced("val", None, "MS") if c["freq"] == "D" else None, [a]),
        "source": (lambda a: a.source_unsourced("val", None, "MS") if c["freq"] == "D" else None, [a]),
        "map to year": (lambda a: pf.map_to_year(a, 2025), [a]),
    }
    fn, ops = X[c["op"]]
    unchanged(ctx, ops, fn, c["op"])


FRAME_OPS = {
    "standardize": lambda s: pf.standardize(s),
    "standardize agnostic": lambda s: pf.standardize(s, "agnostic"),
    "standardize aware": lambda s: pf.standardize(s, "aware", tz="Asia/Kolkata"),
    "standardize right": lambda s: pf.standardize(s, None, "right"),
    "force_agnostic": lambda s: pf.force_agnostic(s),
    "force_aware": lambda s: pf.force_aware(s, "America/New_York"),
    "asfreq_avg": lambda s: pf.asfreq_avg(s, "QS"),
    "asfreq_sum": lambda s: pf.asfreq_sum(s, "MS"),
    "asfreq_sum up": lambda s: pf.asfreq_sum(s, "D"),
    "map_frame_to_year": lambda s: pf.map_frame_to_year(s, 2025),
    "trim": lambda s: pf.tools.trim.frame(s, "MS"),
    "guess frequency": lambda s: pf.tools.freq.guess_to_frame(s),
    "set frequency": lambda s: pf.tools.freq.set_to_frame(s, "D"),
    "intersection": lambda s: pf.intersection(s, s.iloc[1:]),
    "right": lambda s: pf.tools.right.index(s.index),
    "duration": lambda s: pf.tools.duration.index(s.index),
    "righttoleft": lambda s: pf.tools.righttoleft.index(s.index),
    "trim index": lambda s: pf.tools.trim.index(s.index, "MS"),
    "floor": lambda s: [pf.tools.floor.stamp(x, "MS") for x in s.index],
    "start of day": lambda s: pf.tools.startofday.set(s.index, dt.time(6)),
    "boundary": lambda s: pf.tools.isboundary.index(s.index, "MS"),
    "characterize": lambda s: pf.characterize_index(s.index),
    "peak": lambda s: pf.germanpower_peakfn(s.index),
    "po": lambda s: pf.tools.peakconvert.tseries2poframe(s, pf.germanpower_peakfn, "MS", True),
    "pfline": lambda s: pf.PfLine(s),
    "wavg": lambda s: pf.wavg(s, [1.0] * len(s)),
    "fill_gaps": lambda s: pf.tools.frame.fill_gaps(s),
}


def fr_cfgs(tier):
    out = []
    for x in IX:
        for w in ("series", "unit", "df", "gaps"):
            for f in (True, False):
                out.append(dict(x, what=w, freq_set=f))
    return out


@harness("V21", fr_cfgs)
def frames(ctx, c):
    """series and dataframes that are passed to functions"""
    ix = mkix(c)
    n = len(ix)
    i = ix.pd()
    if not c["freq_set"]:
        i = pd.DatetimeIndex(i, freq=None)
    a = reals(ctx, "a", min(n, 4))
    v = [a[k % len(a)] for k in range(n)]
    if c["what"] == "gaps":
        v[1] = math.nan
    if c["what"] == "df":
        b = reals(ctx, "b", 2, lo=1)
        fr = pd.DataFrame({"w": ser(v, i), "p": ser([b[k % 2] for k in range(n)], i)})
    else:
        fr = ser(v, i, name="w", unit="MW" if c["what"] == "unit" else None)
    for name, fn in FRAME_OPS.items():
        if name == "fill_gaps" and c["what"] == "unit":
            continue
        if name == "characterize" and c["freq"] == "MS":
            continue

        def safe(s):
            try:
                return fn(s)
            except (ValueError, AssertionError, AttributeError, TypeError, KeyError):
                pass  # not allowed for this kind of data

        unchanged(ctx, [fr], safe, name)
    if c["what"] != "df":
        w = ser([1.0 + k for k in range(n)], i)
        unchanged(ctx, [fr, w], lambda s, w: pf.wavg(s, w), "wavg with series")
        if c["freq"] == "D" and c["freq_set"]:
            p = ser([1.0 + k for k in range(n)], i)
            unchanged(ctx, [ser(v, i), p], lambda s, p: pf.hedge(s, p, "vol", None, "MS"), "hedge")
    else:
        wts = {"w": 2.0, "p": 3.0}
        unchanged(ctx, [fr, wts], lambda d, w: pf.wavg(d, w, axis=1), "wavg with dict")
        unchanged(ctx, [fr], lambda d: pf.tools.frame.add_header(d, "x"), "add header")
        unchanged(ctx, [fr], lambda d: pf.tools.frame.concat([d, pf.tools.frame.add_header(d, "x")], 1), "concat frames")


@harness("V21", lambda t: [dict(x, kind=k, form=f, unit=u) for i, x in enumerate(IX[:2]) for j, k in enumerate(KINDS) for l, f in enumerate(("series", "frame", "dict", "children", "state")) for u in (False, True) if (t == "thorough" or (i + j + l + u) % 2 == 0)])
def detached(ctx, c):
    """changing the data afterwards does not change the line that was created from it"""
    ix = mkix(c)
    n = len(ix)
    i = ix.pd()
    cols = {"VOLUME": ["w"], "PRICE": ["p"], "REVENUE": ["r"], "COMPLETE": ["q", "p"]}[c["kind"]]
    v = {k: reals(ctx, k, n, lo=1) for k in cols}
    src = {k: ser(x, i, unit=UNITS[k] if c["unit"] else None) for k, x in v.items()}
    f = c["form"]
    new = pf.Q_(-77.0, UNITS[cols[0]]) if c["unit"] else -77.0
    if f == "series":
        if len(cols) > 1 or not c["unit"]:
            return
        s = src[cols[0]].rename(cols[0])
        line = pf.PfLine(s)
        before = snap(line)
        s.iloc[0] = new
        s.index.name = "other"
        s.name = "other"
    elif f == "frame":
        d = pd.DataFrame(src)
        line = pf.PfLine(d)
        before = snap(line)
        d.iloc[0, 0] = new
        d["other"] = 1.0
        d.index.name = "other"
    elif f == "dict":
        d = dict(src)
        line = pf.PfLine(d)
        before = snap(line)
        d[cols[0]].iloc[0] = new
        d["other"] = 3
        del d[cols[0]]
    elif f == "children":
        one = pf.PfLine(src)
        d = {"a": one, "b": one * 2}
        line = pf.PfLine(d)
        before = snap(line)
        d["c"] = one
        d["a"] = one * 3
        del d["b"]
    else:
        if c["kind"] != "COMPLETE":
            return
        o, p = ser([-x for x in v["q"]], i), ser(v["p"], i)
        line = pf.PfState.from_series(pu=p, qo=o)
        before = snap(line)
        o.iloc[0] = -77.0
        p.iloc[0] = -77.0
    after = snap(line)
    ctx.check(before[0] == after[0], "line changed")
    for k, (a, b) in enumerate(zip(before[1], after[1])):
        ctx.eq(b, a, f"line changed: value {k}")
    ctx.check(len(before[1]) == len(after[1]), "line changed (number of values)")
