from harnesses.v09_pfstate import state
from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V20",
     bounds="pairs of lines of all kinds, flat / nested / nested in nested, over 1-3 months, days, anchored quarters or years, with independent symbolic values in [-1000, 1000]; values equal or at least 0.001 apart; pairs that differ in one respect (kind, structure, child name, start, length, frequency, time zone, start-of-day); pairs of portfolio states; pairs of timeseries and frames with units; every zero / non-zero pattern of the values of a line",
     outside="differences within the rounding tolerance; missing values; longer indices")

KINDS = ["VOLUME", "PRICE", "REVENUE", "COMPLETE"]
STRUCT = ["flat", "nested", "deep"]
IX = [
    dict(freq="MS", start="2024-03-01", n=2, tz=B),
    dict(freq="D", start="2024-03-30 06:00", n=2, tz=B),
    dict(freq="QS-FEB", start="2023-11-01", n=1, tz=None),
    dict(freq="YS", start="2021-01-01", n=1, tz=K),
]


def conj(ctx, fs):
    """formula: all"""
    if not ctx.symbolic:
        return all(fs)
    from symx.core import z, z3

    return z3.And([z(f) for f in fs]) if fs else True


def disj(ctx, fs):
    if not ctx.symbolic:
        return any(fs)
    from symx.core import z, z3

    return z3.Or([z(f) for f in fs]) if fs else False


def apart(ctx, pairs):
    """assume: equal, or clearly different"""
    for a, b in pairs:
        d = a - b
        ctx.assume(disj(ctx, [ctx.cond(d, "eq", 0), ctx.cond(d, "ge", 0.001), ctx.cond(d, "le", -0.001)]))


def leaves(ref):
    if ref.flat:
        return [ref]
    return [x for c in ref.children.values() for x in leaves(c)]


def pairs(ra, rb):
    """values that determine whether the lines are equal"""
    out = []
    for a, b in zip(leaves(ra), leaves(rb)):
        for col in ("q", "p") if a.kind == "COMPLETE" else (dict(VOLUME="q", PRICE="p", REVENUE="r")[a.kind],):
            out += list(zip(getattr(a, col), getattr(b, col)))
    return out


def verdict(ctx, got, ps, label):
    ctx.check(isinstance(got, bool), f"{label} is a bool")
    if got:
        ctx.check(conj(ctx, [ctx.cond(a, "eq", b) for a, b in ps]), f"{label}: equal, though values differ")
    else:
        ctx.check(disj(ctx, [ctx.cond(a, "ne", b) for a, b in ps]), f"{label}: unequal, though all values are equal")


def cfgs(tier):
    out = []
    for i, x in enumerate(IX):
        for k in KINDS:
            for j, s in enumerate(STRUCT):
                if tier == "thorough" or (i < 2 and s == "flat") or (i == 2 + (j % 2) and (k, s) != ("COMPLETE", "deep")):
                    out.append(dict(x, kind=k, struct=s))
    return out


@harness("V20", cfgs)
def values(ctx, c):
    """lines with independent values are equal if and only if all values are equal"""
    ix = mkix(c)
    kw = dict(how="q")
    if c["kind"] == "COMPLETE":
        kw.update(nz=True) if c["struct"] == "flat" else kw.update(lo=1)
    a, ra = mkline(ctx, "a", c["kind"], ix, c["struct"], **kw)
    b, rb = mkline(ctx, "b", c["kind"], ix, c["struct"], **kw)
    ps = pairs(ra, rb)
    apart(ctx, ps)
    got = a == b
    verdict(ctx, got, ps, "a == b")
    ctx.check((a != b) is (not got), "!= is the opposite")
    ctx.check((b == a) is got, "symmetric")
    ctx.check(a == a, "reflexive")


@harness("V20", cfgs)
def same_content(ctx, c):
    """equal content is equal, however it was created"""
    ix = mkix(c)
    a, ra = mkline(ctx, "a", c["kind"], ix, c["struct"], how="q", nz=True)

    def rebuild(ref):
        if not ref.flat:
            return pf.PfLine({k: rebuild(x) for k, x in reversed(list(ref.children.items()))})
        i = ref.ix.pd()
        d = {}
        if ref.kind in ("VOLUME", "COMPLETE"):
            d["w"] = ser([x / h for x, h in zip(ref.q, ref.ix.durs)], i)
        if ref.kind == "PRICE":
            d["p"] = ser([x / 1000 for x in ref.p], i, unit="Eur/kWh")
        if ref.kind in ("REVENUE", "COMPLETE"):
            d["r"] = ser([x / 1000 for x in ref.r], i, unit="kEur")
        return pf.PfLine(d)

    ctx.check(a == rebuild(ra), "line created from other columns, in other units, with children in other order")
    ctx.check(pf.PfLine(a) == a, "line created from line")
    ctx.check(a * 2 == a + a, "twice the line")
    ctx.check(a.asfreq(ix.freq) == a, "same frequency")


VARIANTS = ["kind", "structure", "names", "extra child", "start", "length", "freq", "tz", "sod"]


@harness("V20", lambda t: [dict(x, kind=k, v=v) for i, x in enumerate(IX[:2]) for j, k in enumerate(KINDS) for l, v in enumerate(VARIANTS) if t == "thorough" or (i + j + l) % 2 == 0])
def different(ctx, c):
    """lines that differ in one respect are never equal, whatever their values"""
    ix = mkix(c)
    v = c["v"]
    other, so, sa = dict(c), "flat", "flat"
    k = c["kind"]
    if v == "kind":
        k = KINDS[KINDS.index(k) - 1]
    elif v == "structure":
        so = "a"
    elif v == "names":
        sa, so = "a,b", "a,c"
    elif v == "extra child":
        sa, so = "a,b", "a,b,c"
    elif v == "start":
        other["start"] = c["start"].replace("-03-", "-02-") if ix.freq == "MS" else c["start"].replace("-30", "-29")
    elif v == "length":
        other["n"] += 1
    elif v == "freq":
        other.update(freq="QS", start="2024-04-01 06:00" if ix.freq == "D" else "2024-04-01")
    elif v == "tz":
        other["tz"] = None
    elif v == "sod":
        other["start"] = c["start"][:10] + " 09:00"
    kw = dict(lo=1) if "COMPLETE" in (c["kind"], k) else {}
    a, _ = mkline(ctx, "a", c["kind"], ix, sa, how="q", **kw)
    b, _ = mkline(ctx, "b", k, mkix(other), so, how="q", **kw)
    ctx.check((a == b) is False and (b == a) is False, f"different {v}")
    ctx.check((a != b) is True, f"different {v} !=")
    for o in (1, 0.0, "a", None, a.df, {"w": 1}):
        r = a == o
        ctx.check(r is False, f"compared with {type(o).__name__}")


def bool_cfgs(tier):
    out = []
    for i, x in enumerate(IX):
        for k in KINDS:
            for s in STRUCT + ["a"]:
                n = {"flat": 2, "a": 2, "nested": 2, "deep": 1}[s]
                if k == "COMPLETE" and s != "a":
                    n = 1
                if tier == "thorough" or i == 1 or (i == 2 and s == "flat"):
                    out.append(dict(x, n=n, kind=k, struct=s))
    return out


@harness("V20", bool_cfgs)
def truth(ctx, c):
    """a line is true if and only if any value is nonzero"""
    ix = mkix(c)
    a, ra = mkline(ctx, "a", c["kind"], ix, c["struct"], how="q")
    got = bool(a)
    vs = []
    for l in leaves(ra):
        vs += l.p if l.kind == "PRICE" else (l.r if l.kind == "REVENUE" else l.q)
    if got:
        ctx.check(disj(ctx, [ctx.cond(x, "ne", 0) for x in vs]), "true, though all values are zero")
    else:
        ctx.check(conj(ctx, [ctx.cond(x, "eq", 0) for x in vs]), "false, though not all values are zero")


@harness("V20", lambda t: [dict(x, by=by) for x in IX[:2] for by in ("q", "r")])
def truth_complete(ctx, c):
    """a complete line is true if it has volume or revenue"""
    ix = mkix(dict(c, n=1))
    x = reals(ctx, "x", 1)
    zero = [0.0]
    if c["by"] == "q":
        a = pf.PfLine({"q": ser(x, ix.pd()), "r": ser(zero, ix.pd())})
    else:  # revenue without volume, e.g. cancelled trades
        one = pf.PfLine({"q": ser([1.0], ix.pd()), "r": ser(x, ix.pd())})
        two = pf.PfLine({"q": ser([1.0], ix.pd()), "r": ser(zero, ix.pd())})
        a = one - two
    got = bool(a)
    ctx.check(ctx.cond(x[0], "ne" if got else "eq", 0), "truth of complete line")


@harness("V20", lambda t: [dict(x, so=so, ss=ss, n=2 if t == "thorough" else 1) for x in IX[:2] for so, ss in [("flat", "flat"), ("a,b", "flat"), ("flat", "a,b"), ("flat", None)] if t == "thorough" or (x["freq"] == "D" and ss != "a,b") or (so, ss) == ("flat", "flat")])
def states(ctx, c):
    ix = mkix(dict(c, n=1) if "," in c["so"] + str(c["ss"]) else c)
    a, *ra = state(ctx, c, ix, "a")
    b, *rb = state(ctx, c, ix, "b")
    ps = []
    for x, y in zip(ra, rb):
        if c["ss"] is None and x is ra[2]:
            continue
        ps += pairs(x, y)
    apart(ctx, ps)
    verdict(ctx, a == b, ps, "a == b")
    ctx.check(a == a and not a != a, "reflexive")
    ctx.check((a == 1) is False and (a == a.sourced) is False, "state and something else")
    ctx.check(bool(a), "state is true")
    if c["ss"]:
        d = pf.PfState(a.offtake.volume, a.unsourcedprice, None)
        ctx.check((a == d) is False and (d == a) is False, "without sourced volume")


FORMS = [(None, None, 1), ("MWh", "MWh", 1), ("kWh", "MWh", 1000), ("Eur/MWh", "ctEur/kWh", 10), ("MW", "MWh", 0), ("MW", None, 0), (None, "Eur", 0)]


@harness("V20", lambda t: [dict(x, n=2, form=list(f)) for x in IX[:3] for f in FORMS if t == "thorough" or x is IX[0]])
def timeseries(ctx, c):
    """comparison of timeseries and frames with units: equal if and only if same dimension and all values are"""
    u, v, f = c["form"]
    ix = mkix(c)
    i = ix.pd()
    a, b = reals(ctx, "a", 2), reals(ctx, "b", 2)
    ps = [(x, y * core.Fraction(f).limit_denominator(1000)) for x, y in zip(a, b)]
    apart(ctx, ps)
    s, r = ser(a, i, "x", u), ser(b, i, "x", v)
    T = pf.testing
    if f == 0:
        ctx.check(raises(lambda: T.assert_series_equal(s, r), AssertionError), "other dimension")
        ctx.check(raises(lambda: T.assert_frame_equal(pd.DataFrame({"x": s}), pd.DataFrame({"x": r})), AssertionError), "frame with other dimension")
        ctx.check(pf.tools.frame.series_allclose(s, r) is False, "other dimension is not close")
        return
    got = not raises(lambda: T.assert_series_equal(s, r), AssertionError)
    verdict(ctx, got, ps, "assert_series_equal")
    k, l = ser([1.0, 2.0], i, None, "Eur"), ser([1.0, 2.0], i, None, "Eur")
    df1, df2 = pd.DataFrame({"x": s, "k": k}), pd.DataFrame({"k": l, "x": r})
    ctx.check((not raises(lambda: T.assert_frame_equal(df1, df2), AssertionError)) is got, "columns in other order")
    ctx.check(raises(lambda: T.assert_frame_equal(df1, df2[["x"]]), AssertionError), "missing column")
    ctx.check(raises(lambda: T.assert_series_equal(s, ser(a, i, "y", u)), AssertionError), "other name")
    ctx.check(not raises(lambda: T.assert_series_equal(s, ser(a, i, "y", u), check_names=False), AssertionError), "other name, ignored")
    later = pd.date_range((i + i.freq)[0], freq=i.freq, periods=2)
    ctx.check(raises(lambda: T.assert_series_equal(s, ser(a, later, "x", u)), AssertionError), "other periods")
    ctx.check(not raises(lambda: T.assert_indices_compatible(i, later), AssertionError), "compatible indices")
    ctx.check(raises(lambda: T.assert_indices_compatible(i, pd.date_range("2024-01-01", freq="h", periods=24, tz=i.tz)), AssertionError), "incompatible frequency")
