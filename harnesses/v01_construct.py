from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V01",
     bounds="every subset of {power, energy, price, revenue}; supplied as dictionary, dataframe, series with units, list of series, or timeseries combined with single values; 1-25 periods (hourly to yearly); symbolic values in [-1000, 1000] (and, for 1 period, every zero / non-zero pattern); contradicting values that differ by 1% or more; histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="contradictions below 1%; longer indices; missing input values; float rounding")
Q_ = pf.Q_

SUBSETS = ["w", "q", "p", "r", "wq", "wp", "qp", "wr", "qr", "pr", "wqp", "wqr", "wpr", "qpr", "wqpr"]
KIND = lambda s: "COMPLETE" if ("w" in s or "q" in s) and ("p" in s or "r" in s) or "p" in s and "r" in s else {"w": "VOLUME", "q": "VOLUME", "p": "PRICE", "r": "REVENUE"}[s[0]]
FORMS = ["dict", "frame", "units", "list", "floats", "tuplekeys"]


def data(vals, index, form):
    if form == "floats":
        return {k: ser(v, index) for k, v in vals.items()}
    s = {k: ser(v, index, k, UNITS[k]) for k, v in vals.items()}
    if form == "dict":
        return s
    if form == "frame":
        return pd.DataFrame(s)
    if form == "tuplekeys":
        return {[("pf1", k), (k, "pf1"), ("pf1", "x", k)][j % 3]: v for j, (k, v) in enumerate(s.items())}
    if form == "units" and len(s) == 1:
        return next(iter(s.values()))
    return list(s.values())


def consistent(ctx, ix, subset, **kw):
    """symbolic independent inputs, dependent ones computed"""
    n, d = len(ix), ix.durs
    v = {}
    if "w" in subset or "q" in subset:
        if "w" in subset:
            v["w"] = reals(ctx, "w", n, **kw)
            q = [a * b for a, b in zip(v["w"], d)]
            if "q" in subset:
                v["q"] = q
        else:
            q = v["q"] = reals(ctx, "q", n, **kw)
        if "p" in subset:
            p = v["p"] = reals(ctx, "p", n, **kw)
            r = [a * b for a, b in zip(q, p)]
            if "r" in subset:
                v["r"] = r
        elif "r" in subset:
            r, p = reals(ctx, "r", n, **kw), None
            v["r"] = r
        else:
            p = r = None
        return v, q, p, r
    p = reals(ctx, "p", n, **kw) if "p" in subset else None
    r = reals(ctx, "r", n, **kw) if "r" in subset else None
    if p:
        v["p"] = p
    if r:
        v["r"] = r
    return v, ([b / a for a, b in zip(p, r)] if p and r else None), p, r


def mkref(ix, subset, q, p, r):
    k = KIND(subset)
    return Ref(k, ix, q if k in ("VOLUME", "COMPLETE") else None, r if k in ("REVENUE", "COMPLETE") else None, p if k == "PRICE" else None)


def cfgs(tier):
    out = []
    for i, ix in enumerate([MS2, D3B6, QF2, YA2, H23, H25, Q92]):
        for j, s in enumerate(SUBSETS):
            for k, f in enumerate(FORMS):
                if len(mkix(ix)) > 30 and (k or len(s) > 2):
                    continue
                if tier == "thorough" or i == 0 or (i + j + k) % 6 == 0:
                    out.append(dict(ix, subset=s, form=f))
    return out


@harness("V01", cfgs, prio=1)
def build(ctx, c):
    """all of w, q, p, r that follow from the input; w = q / duration, r = p * q"""
    ix = mkix(c)
    v, q, p, r = consistent(ctx, ix, c["subset"], lo=1)
    pfl = pf.PfLine(data(v, ix.pd(), c["form"]))
    check_line(ctx, pfl, mkref(ix, c["subset"], q, p, r), "line")
    if p is not None and KIND(c["subset"]) == "COMPLETE":
        for i, x in enumerate(vals(pfl.p, "Eur/MWh")):
            ctx.eq(x, p[i], f"line.p[{i}]")


@harness("V01", lambda t: prod([dict(MS2, n=1), dict(D2, n=1)], opts("subset", *[s for s in SUBSETS if s not in ("w", "pr")])))
def zeros(ctx, c):
    """any zero / non-zero pattern"""
    ix = mkix(c)
    v, q, p, r = consistent(ctx, ix, c["subset"])
    if p is None and r is not None and q is not None:
        # revenue without volume: no price
        ctx.assume(core.cond(q[0], "ne", 0) if isinstance(q[0], SymReal) else q[0] != 0)
    pfl = pf.PfLine(data(v, ix.pd(), "dict"))
    check_line(ctx, pfl, mkref(ix, c["subset"], q, p, r), "line")
    if p is not None:
        ctx.eq(vals(pfl.p, "Eur/MWh")[0], p[0], "line.p")


@harness("V01", lambda t: prod([MS2, D3B6, H23] if t == "quick" else [MS2, D3B6, H23, QF2, YA2], opts("subset", "wq", "wqp", "wqr", "wpr", "qpr", "wqpr"), opts("what", 0, 1, 2), opts("sign", 1, -1)))
def contradiction(ctx, c):
    """redundant input that does not agree is rejected"""
    ix = mkix(c)
    v, q, p, r = consistent(ctx, ix, c["subset"], lo=1)
    # in wqp and wqr, p / r is not redundant
    red = {"wqp": "wq", "wqr": "wq"}.get(c["subset"], c["subset"])
    what = red[c["what"] % len(red)]
    e = ctx.real("e", lo=0.01, hi=10)
    i = len(ix) - 1
    v[what] = list(v[what])
    v[what][i] = v[what][i] * (1 + e * c["sign"]) if c["sign"] > 0 else v[what][i] / (1 + e)
    ctx.check(raises(lambda: pf.PfLine(data(v, ix.pd(), "dict")), ValueError), f"contradicting {what} rejected")


@harness("V01", lambda t: prod([MS2, D3B6] if t == "quick" else [MS2, D3B6, QF2, H23], opts("subset", "qpr", "wpr", "wqpr"), opts("what", "p", "q"), opts("v", "nan", "inf"), opts("pos", 0, -1)))
def unknown(ctx, c):
    """a missing (or infinite) price / volume is not consistent with known, nonzero other values"""
    ix = mkix(c)
    v, q, p, r = consistent(ctx, ix, c["subset"], lo=1)
    bad = float(c["v"])
    names = ["p"] if c["what"] == "p" else [k for k in "wq" if k in v]
    for k in names:
        v[k] = list(v[k])
        v[k][c["pos"]] = bad
    ctx.check(raises(lambda: pf.PfLine(data(v, ix.pd(), "dict")), ValueError), f"unknown {c['what']} rejected")
    if c["what"] == "p" and c["v"] == "nan":  # no volume: price may be unknown
        for k in v:
            if k != "p":
                v[k] = list(v[k])
                v[k][c["pos"]] = 0.0
        q, r = list(q), list(r)
        q[c["pos"]] = r[c["pos"]] = 0.0
        check_line(ctx, pf.PfLine(data(v, ix.pd(), "dict")), mkref(ix, c["subset"], q, p, r), "price unknown without volume", check_p=False)


@harness("V01", lambda t: prod([MS2, D3B6] if t == "quick" else [MS2, D3B6, QF2, H23], opts("subset", "qp", "wp", "wqp"), opts("v", "nan", "inf"), opts("pos", 0, -1), opts("form", "dict", "frame")))
def no_volume(ctx, c):
    """a period without volume has no revenue, also if its price is unknown"""
    ix = mkix(c)
    v, q, p, r = consistent(ctx, ix, c["subset"], lo=1)
    v = {k: list(x) for k, x in v.items()}
    for k in v:
        v[k][c["pos"]] = float(c["v"]) if k == "p" else 0.0
    q, r = list(q), list(r)
    q[c["pos"]] = r[c["pos"]] = 0.0
    check_line(ctx, pf.PfLine(data(v, ix.pd(), c["form"])), mkref(ix, c["subset"], q, p, r), "line", check_p=False)


OV = [("2024-01-01", 3, "2024-02-01", 3), ("2024-01-01", 4, "2024-02-01", 1), ("2024-03-01", 2, "2023-01-01", 15)]


@harness("V01", lambda t: [dict(ov=o, tz=tz, subset=s, form=f) for o in range(3) for tz in (None, B) for s in ("wp", "qp", "qr", "pr") for f in ("dict", "list", "frame")[: 2]])
def overlap(ctx, c):
    """timeseries with different periods: only the common periods"""
    s1, n1, s2, n2 = OV[c["ov"]]
    ixs = dict(zip(c["subset"], [mkix(dict(freq="MS", start=s, n=n, tz=c["tz"])) for s, n in ((s1, n1), (s2, n2))]))
    a, b = c["subset"]
    v = {k: reals(ctx, k, len(ix), lo=1) for k, ix in ixs.items()}
    d = {k: ser(v[k], ixs[k].pd(), k, UNITS[k]) for k in v}
    pfl = pf.PfLine(d if c["form"] == "dict" else list(d.values()))
    keep = [x for x in ixs[a].lefts if x in ixs[b].lefts]
    ix = ixs[a].sub([ixs[a].lefts.index(x) for x in keep])
    v = {k: [v[k][ixs[k].lefts.index(x)] for x in keep] for k in v}
    q = v.get("q") or ([x * h for x, h in zip(v["w"], ix.durs)] if "w" in v else [y / x for x, y in zip(v["p"], v["r"])])
    r = v.get("r") or [x * y for x, y in zip(q, v["p"])]
    check_line(ctx, pfl, Ref("COMPLETE", ix, q=q, r=r), "line")


@harness("V01", lambda t: prod([MS2, D3B6, H24], opts("form", "float", "quantity", "int")))
def broadcast(ctx, c):
    """a single value next to a timeseries holds in every period"""
    ix = mkix(c)
    n = len(ix)
    w = reals(ctx, "w", n, lo=1)
    k = ctx.scalar("k", lo=1) if c["form"] != "int" else 3
    d = ix.durs
    val_ = Q_(k, "Eur/kWh") if c["form"] == "quantity" else k
    f = 1000 if c["form"] == "quantity" else 1
    pfl = pf.PfLine({"w": ser(w, ix.pd()), "p": val_})
    check_line(ctx, pfl, Ref("COMPLETE", ix, q=[a * h for a, h in zip(w, d)], r=[a * h * k * f for a, h in zip(w, d)]), "power series, single price")
    p = reals(ctx, "p", n, lo=1)
    pfl = pf.PfLine({"p": ser(p, ix.pd()), "w": Q_(k, "GW") if c["form"] == "quantity" else k})
    check_line(ctx, pfl, Ref("COMPLETE", ix, q=[k * f * h for h in d], r=[a * k * f * h for a, h in zip(p, d)]), "price series, single power")
    pfl = pf.PfLine({"p": ser(p, ix.pd()), "q": Q_(k, "GWh") if c["form"] == "quantity" else k})
    check_line(ctx, pfl, Ref("COMPLETE", ix, q=[k * f] * n, r=[a * k * f for a in p]), "price series, single energy")


@harness("V01", lambda t: [dict(MS2)])
def rejected(ctx, c):
    """data without (or with conflicting) dimension is never guessed"""
    ix = mkix(c)
    i = ix.pd()
    v = reals(ctx, "v", 2, lo=1)
    k = ctx.scalar("k", lo=1)
    s = ser(v, i)
    bad = {
        "number": lambda: pf.PfLine(k),
        "series without unit": lambda: pf.PfLine(s),
        "dimensionless series": lambda: pf.PfLine(ser(v, i, None, "dimensionless")),
        "dimensionless entry": lambda: pf.PfLine({"w": s, "nodim": s}),
        "agnostic entry": lambda: pf.PfLine({"w": s, "agn": s}),
        "unknown key": lambda: pf.PfLine({"w": s, "x": s}),
        "same dimension twice": lambda: pf.PfLine([ser(v, i, None, "MW"), ser(v, i, None, "GW")]),
        "only single values": lambda: pf.PfLine({"w": k, "p": k}),
        "none": lambda: pf.PfLine(None),
        "temperature": lambda: pf.PfLine(ser(v, i, None, "degC")),
        "wrong dimension under key": lambda: pf.PfLine({"w": ser(v, i, None, "MWh")}),
        "wrong dimension under key p": lambda: pf.PfLine({"p": ser(v, i, None, "Eur")}),
        "no frequency": lambda: pf.PfLine({"w": ser(v, pd.DatetimeIndex(["2024-01-01", "2024-03-01"]))}),
        "not at start of month": lambda: pf.PfLine({"w": ser(v, pd.date_range("2024-01-02", freq="31D", periods=2))}),
        "incomplete day": lambda: pf.PfLine({"w": ser(v, pd.date_range("2024-01-01", freq="h", periods=2))}),
        "different frequencies": lambda: pf.PfLine({"w": s, "p": ser([1.0] * 31, pd.date_range("2024-01-01", freq="D", periods=31))}),
        "different time zones": lambda: pf.PfLine({"w": s, "p": ser(v, i.tz_localize(B))}),
        "different start-of-day": lambda: pf.PfLine({"w": s, "p": ser([1.0, 1.0], mkix(dict(MS2, start="2024-01-01 06:00")).pd())}),
        "no overlap": lambda: pf.PfLine({"w": s, "p": ser(v, pd.date_range("2025-01-01", freq="MS", periods=2))}),
        "empty": lambda: pf.PfLine({"w": pd.Series([], i[:0], dtype=float)}),
        "text": lambda: pf.PfLine("w"),
    }
    for lab, f in bad.items():
        ctx.check(raises(f), lab + " rejected")


@harness("V01", lambda t: [dict(base=list(b), sym=s) for b in (("D", "2024-03-30", 3), ("D", "2024-02-28", 4), ("MS", "2024-02-01", 3), ("QS", "2024-01-01", 2), ("YS", "2024-01-01", 1)) for s in ("w", "q")], max_paths=20)
def history(ctx, c):
    """values do not depend on which lines were made before"""
    cs = alike(*c["base"])
    for k, ic in enumerate(cs + cs[::-1]):
        ix = mkix(ic)
        v = reals(ctx, f"v{k}_", len(ix))
        x = pf.PfLine({c["sym"]: ser(v, ix.pd())})
        q = v if c["sym"] == "q" else [a * h for a, h in zip(v, ix.durs)]
        check_line(ctx, x, Ref("VOLUME", ix, q=q), f"line {k}")
