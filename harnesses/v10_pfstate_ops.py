from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *
from symx.oracle import common
from harnesses.v09_pfstate import state, unsourced

meta("V10",
     bounds="portfolio states over 1-62 periods; offtake and sourced flat or nested; replacing or adding parts; changing frequency (down and up, with incomplete periods); sums, differences, multiples, ratios of two states (equal or partial overlap); hedging the unsourced volume; selecting periods; symbolic values in [-1000, 1000], short positions (offtake larger than sourced; every zero / non-zero pattern and sign of the position for sums and multiples of 1 period and for aggregating 3 (thorough: 4))",
     outside="longer indices; unsourced positions that cancel out when aggregated; NaN input values; float rounding")

SO = dict(so="flat", ss="flat")
CASES = [dict(MS2), dict(D3B6), dict(QF2), dict(YA2)]


def cfgs(tier):
    out = []
    for i, ix in enumerate(CASES):
        for j, (so, ss) in enumerate([("flat", "flat"), ("a,b", "flat"), ("flat", "a(x),b"), ("flat", None)]):
            if tier == "thorough" or i == 0 or (i + j) % 2 == 0:
                out.append(dict(ix, so=so, ss=ss))
    return out


def check_state(ctx, pfs, ro, rp, rs, label, unsrc_p=True):
    check_line(ctx, pfs.offtakevolume, ro, label + " offtake")
    check_line(ctx, pfs.sourced, rs, label + " sourced", check_p=False)
    check_line(ctx, pfs.unsourcedprice, rp, label + " unsourcedprice")
    check_line(ctx, pfs.unsourced, unsourced(ro, rp, rs), label + " unsourced", check_p=False)


@harness("V10", cfgs)
def replace(ctx, c):
    """set_offtakevolume, set_unsourcedprice, set_sourced, add_sourced change exactly that part"""
    ix = mkix(c)
    pfs, ro, rp, rs = state(ctx, c)
    o2, ro2 = mkline(ctx, "n", "VOLUME", ix, "flat", "q", lo=-1000, hi=-700)
    p2, rp2 = mkline(ctx, "m", "PRICE", ix, "flat", lo=1)
    s2, rs2 = mkline(ctx, "t", "COMPLETE", ix, "flat", "q", lo=1, hi=100)
    check_state(ctx, pfs.set_offtakevolume(o2), ro2, rp, rs, "set_offtakevolume")
    check_state(ctx, pfs.set_unsourcedprice(p2), ro, rp2, rs, "set_unsourcedprice")
    check_state(ctx, pfs.set_sourced(s2), ro, rp, rs2, "set_sourced")
    check_state(ctx, pfs.add_sourced(s2), ro, rp, rs.add(rs2), "add_sourced")
    check_state(ctx, pfs, ro, rp, rs, "original")
    ctx.check(raises(lambda: pfs.set_offtakevolume(p2)), "offtake without volume rejected")
    ctx.check(raises(lambda: pfs.set_sourced(o2)), "sourced without price rejected")
    ctx.check(raises(lambda: pfs.set_unsourcedprice(o2)), "unsourced price without price rejected")


FREQ = [
    dict(MS3, start="2024-01-01", to="QS"),
    dict(freq="MS", start="2023-12-01", n=5, tz=B, to="QS"),
    dict(freq="MS", start="2023-11-01 06:00", n=3, to="QS-FEB"),
    dict(freq="QS", start="2023-01-01", n=4, tz=B, to="YS"),
    dict(freq="D", start="2024-02-01", n=30, tz=B, to="MS"),
    dict(freq="h", start="2024-03-31", n=23, tz=B, to="D"),
]


@harness("V10", lambda t: prod(FREQ[: 4 if t == "quick" else 9], [SO, dict(so="a,b", ss="flat"), dict(so="flat", ss="a,b")]) + ([] if t != "quick" else prod(FREQ[4:], [SO])), prio=1)
def downsample(ctx, c):
    """volumes and revenues add up; unsourced price is the volume-weighted price"""
    pfs, ro, rp, rs = state(ctx, c)
    ru = unsourced(ro, rp, rs).asfreq(c["to"])
    o = pfs.asfreq(c["to"]) if c["to"] != "MS" else pfs.asfreq()
    eo, es = ro.asfreq(c["to"]), rs.asfreq(c["to"])
    check_line(ctx, o.offtakevolume, eo, "offtake")
    check_line(ctx, o.sourced, es, "sourced", check_p=False)
    ep = Ref("PRICE", ru.ix, p=[a / b for a, b in zip(ru.r, ru.q)])
    check_line(ctx, o.unsourcedprice, ep, "unsourcedprice")
    check_line(ctx, o.unsourced, ru, "unsourced", check_p=False)
    tot = vals(o.pnl_cost.r, "Eur")
    for i, (a, b) in enumerate(zip(es.r, ru.r)):
        ctx.eq(tot[i], a + b, f"pnl_cost.r[{i}]")


@harness("V10", lambda t: prod([dict(QS2B, to="MS"), dict(MS2, n=1, to="D"), dict(D2, to="h")], [SO, dict(so="a,b", ss="flat")]))
def upsample(ctx, c):
    pfs, ro, rp, rs = state(ctx, c)
    check_state(ctx, pfs.asfreq(c["to"]), ro.asfreq(c["to"]), rp.asfreq(c["to"]), rs.asfreq(c["to"]), "asfreq")


def pairs(tier):
    a = [dict(MS2, start2="2024-01-01", n2=2), dict(D3B6, start2="2024-03-31 06:00", n2=3), dict(QF2, start2="2023-08-01", n2=2)]
    s = [("flat", "flat", "flat", "flat"), ("a,b", "flat", "a,c", "flat"), ("flat", "a,b", "flat", "a,b"), ("flat", None, "flat", "flat")]
    return [dict(i, so=x[0], ss=x[1], so2=x[2], ss2=x[3]) for k, i in enumerate(a) for l, x in enumerate(s) if tier == "thorough" or k == 0 or (k + l) % 2 == 0]


def two(ctx, c, neg=False):
    pfs, ro, rp, rs = state(ctx, c, nm="A", ks=dict(lo=10, hi=200))
    ix2 = mkix(dict(c, start=c["start2"], n=c["n2"]))
    kw = dict(ko=dict(lo=600, hi=1000), ks=dict(lo=-200, hi=-10)) if neg else {}
    qfs, so, sp, ss = state(ctx, dict(c, so=c["so2"], ss=c["ss2"]), ix2, nm="B", **kw)
    pos = common(ro.ix, so.ix)
    a, b = [i for i, _ in pos], [j for _, j in pos]
    return pfs, ro.take(a), rp.take(a), rs.take(a), qfs, so.take(b), sp.take(b), ss.take(b)


def sum_price(ro, rp, rs, so, sp, ss):
    ua, ub = unsourced(ro, rp, rs), unsourced(so, sp, ss)
    return Ref("PRICE", ro.ix, p=[(x + y) / (v + w) for x, y, v, w in zip(ua.r, ub.r, ua.q, ub.q)])


@harness("V10", pairs, prio=1)
def add(ctx, c):
    """sum of states: offtake, sourced and unsourced add up, volume and value"""
    pfs, ro, rp, rs, qfs, so, sp, ss = two(ctx, c)
    ep = sum_price(ro, rp, rs, so, sp, ss)
    check_state(ctx, pfs + qfs, ro.add(so), ep, rs.add(ss), "sum")


@harness("V10", pairs)
def sub(ctx, c):
    pfs, ro, rp, rs, qfs, so, sp, ss = two(ctx, c, neg=True)
    n = lambda x: x.scale(-1)
    ep = sum_price(ro, rp, rs, n(so), sp, n(ss))
    check_state(ctx, pfs - qfs, ro.add(n(so)), ep, rs.add(n(ss)), "difference")


def sum_(pfs):
    return None + pfs


@harness("V10", cfgs)
def scale(ctx, c):
    """-pfs, k * pfs, pfs / k and one factor per period: volumes scale, prices stay"""
    pfs, ro, rp, rs = state(ctx, c)
    k = ctx.scalar("k", lo=1)
    check_state(ctx, -pfs, ro.scale(-1), rp, rs.scale(-1), "-pfs")
    check_state(ctx, pfs * k, ro.scale(k), rp, rs.scale(k), "pfs*k")
    check_state(ctx, k * pfs, ro.scale(k), rp, rs.scale(k), "k*pfs")
    check_state(ctx, pfs * 2, ro.scale(2), rp, rs.scale(2), "pfs*2")
    check_state(ctx, pfs / k, ro.scale(1 / k), rp, rs.scale(1 / k), "pfs/k")
    f = reals(ctx, "f", len(ro.ix), lo=1)
    check_state(ctx, pfs * ser(f, ro.ix.pd()), ro.scale(f), rp, rs.scale(f), "pfs*series")
    check_state(ctx, pfs / ser(f, ro.ix.pd()), ro.scale([1 / x for x in f]), rp, rs.scale([1 / x for x in f]), "pfs/series")
    check_state(ctx, pfs * pf.Q_(k, "dimensionless"), ro.scale(k), rp, rs.scale(k), "pfs*quantity")
    check_state(ctx, pfs + None, ro, rp, rs, "pfs+None")
    check_state(ctx, pfs - None, ro, rp, rs, "pfs-None")
    check_state(ctx, sum_(pfs), ro, rp, rs, "None+pfs")
    i = list(range(1, len(ro.ix)))  # factors for only part of the periods
    o, p, q = ro.take(i), rp.take(i), rs.take(i)
    check_state(ctx, pfs * ser(f[1:], o.ix.pd()), o.scale(f[1:]), p, q.scale(f[1:]), "pfs*short series")


ONE = [dict(MS2, n=1), dict(D2, n=1)]


@harness("V10", lambda t: [dict(c, so="flat", ss=s) for c in ONE for s in ("flat", None)] + [dict(ONE[0], so="a,b", ss="flat")], max_paths=600)
def scale_any_position(ctx, c):
    """any zero / non-zero pattern of the volumes"""
    pfs, ro, rp, rs = state(ctx, c, ko={}, ks={}, kp={})
    k = ctx.scalar("k", lo=1)
    for lab, got, f in (("-pfs", -pfs, -1), ("pfs*k", pfs * k, k), ("pfs/k", pfs / k, 1 / k), ("pfs*series", pfs * ser([k], ro.ix.pd()), k)):
        ru = unsourced(ro, rp, rs).scale(f)
        check_line(ctx, got.offtakevolume, ro.scale(f), lab + " offtake")
        check_line(ctx, got.sourced, rs.scale(f), lab + " sourced", check_p=False)
        check_line(ctx, got.unsourcedprice, rp, lab + " unsourcedprice")
        check_line(ctx, got.unsourced, ru, lab + " unsourced", check_p=False)


@harness("V10", lambda t: [dict(ONE[0], so="flat", ss=None)] if t == "quick" else [dict(c, so="flat", ss=s) for c in ONE for s in ("flat", None)], max_paths=3000, prio=-1)
def add_any_position(ctx, c):
    """any zero / non-zero pattern of the volumes (positions that do not cancel out)"""
    pfs, ro, rp, rs = state(ctx, c, nm="A", ko={}, ks=dict(lo=1), kp=dict(lo=1))
    qfs, so, sp, ss = state(ctx, dict(c, ss="flat" if c["ss"] is None else None), nm="B", ko={}, ks=dict(lo=1), kp=dict(lo=1))
    ua, ub = unsourced(ro, rp, rs), unsourced(so, sp, ss)
    closed = ctx.branch(ctx.cond(ua.q[0] + ub.q[0], "eq", 0))
    got = pfs + qfs
    check_line(ctx, got.offtakevolume, ro.add(so), "offtake")
    check_line(ctx, got.sourced, rs.add(ss), "sourced", check_p=False)
    if not closed:
        check_line(ctx, got.unsourced, ua.add(ub), "unsourced", check_p=False)
        ctx.eq(vals(got.pnl_cost.r, "Eur")[0], rs.r[0] + ss.r[0] + ua.r[0] + ub.r[0], "pnl_cost")
    else:
        ctx.eq(vals(got.unsourced.q, "MWh")[0], 0, "unsourced volume")


@harness("V10", lambda t: [dict(f, so="flat", ss=s) for f in (dict(freq="MS", start="2024-01-01", n=3, tz=B, to="QS"), dict(freq="QS", start="2023-01-01", n=4, tz=None, to="YS"))[: 1 if t == "quick" else 2] for s in ((None,) if t == "quick" else (None, "flat"))], max_paths=3000)
def downsample_any_position(ctx, c):
    """periods without unsourced volume, or with surplus, in the aggregated period"""
    pfs, ro, rp, rs = state(ctx, c, ko={}, ks=dict(lo=1), kp=dict(lo=1))
    ru = unsourced(ro, rp, rs).asfreq(c["to"])
    got = pfs.asfreq(c["to"])
    check_line(ctx, got.offtakevolume, ro.asfreq(c["to"]), "offtake")
    check_line(ctx, got.sourced, rs.asfreq(c["to"]), "sourced", check_p=False)
    if not ctx.branch(ctx.cond(ru.q[0], "eq", 0)):
        check_line(ctx, got.unsourced, ru, "unsourced", check_p=False)
    else:
        ctx.eq(vals(got.unsourced.q, "MWh")[0], 0, "unsourced volume")


@harness("V10", lambda t: [c for c in pairs(t) if c["ss"] is not None])
def ratio(ctx, c):
    """pfs1 / pfs2: dataframe with ratios of the values"""
    pfs, ro, rp, rs, qfs, so, sp, ss = two(ctx, c)
    df = pfs / qfs
    ua, ub = unsourced(ro, rp, rs), unsourced(so, sp, ss)
    d = lambda x, y: [a / b for a, b in zip(x, y)]
    P = lambda x: d(x.r, x.q)
    ta, tb = [-a for a in ro.q], [-a for a in so.q]
    exp = {
        ("offtake", "volume"): d(ro.q, so.q),
        ("sourced", "volume"): d(rs.q, ss.q),
        ("sourced", "price"): d(P(rs), P(ss)),
        ("unsourced", "volume"): d(ua.q, ub.q),
        ("unsourced", "price"): d(rp.p, sp.p),
        ("pnl_cost", "price"): d(d([a + b for a, b in zip(rs.r, ua.r)], ta), d([a + b for a, b in zip(ss.r, ub.r)], tb)),
    }
    for k, e in exp.items():
        check_series(ctx, df[k], ro.ix, e, str(k), "dimensionless", freq=False)


@harness("V10", lambda t: prod([MS2, D3B6], [SO, dict(so="a,b", ss="a,b")]))
def nothing(ctx, c):
    """None as operand: nothing is added or subtracted"""
    pfs, ro, rp, rs = state(ctx, c)
    for lab, f in (("pfs + None", lambda: pfs + None), ("None + pfs", lambda: None + pfs), ("pfs - None", lambda: pfs - None)):
        check_state(ctx, f(), ro, rp, rs, lab)
    check_state(ctx, None - pfs, ro.scale(-1), rp, rs.scale(-1), "None - pfs")


@harness("V10", lambda t: [dict(MS2, **SO)])
def rejected(ctx, c):
    pfs, ro, rp, rs = state(ctx, c)
    o = pfs.offtakevolume
    ix = ro.ix.pd()
    bad = {
        "pfs+number": lambda: pfs + 2.0, "pfs+line": lambda: pfs + o, "pfs*line": lambda: pfs * o,
        "pfs*pfs": lambda: pfs * pfs, "pfs*None": lambda: pfs * None, "pfs/None": lambda: pfs / None, "pfs/line": lambda: pfs / o,
        "pfs*power": lambda: pfs * pf.Q_(2.0, "MW"), "pfs*text": lambda: pfs * "2", "line+pfs": lambda: o + pfs, "line-pfs": lambda: o - pfs,
        "number-pfs": lambda: 2.0 - pfs, "pfs-line": lambda: pfs - o, "pfs-number": lambda: pfs - 2.0, "pfs-price": lambda: pfs - pfs.unsourcedprice,
        "incompatible frequency": lambda: pfs * ser([1.0] * 3, pd.date_range("2024-01-01", freq="D", periods=3)),
        "incompatible timezone": lambda: pfs * ser([1.0] * 2, ix.tz_localize(B)),
    }
    for lab, f in bad.items():
        ctx.check(raises(f), lab + " rejected")


RATIO = {"fraction": 1, "dimensionless": 1, "ctEur/Eur": 0.01, "kWh/MWh": 0.001, "min/h": 1 / 60, "GW/MW": 1000}


@harness("V10", lambda t: [dict(MS2, so="flat", ss=s, unit=u) for k, u in enumerate((*RATIO, "min", "Eur", "MW", "MWh", "Eur/MWh", "1/MW", "tCO2", "MW/MWh", "ctEur/kWh")) for s in ("flat", None) if t != "quick" or (k + (s is None)) % 2 == 0])
def factor_units(ctx, c):
    """factors with a unit: converted if dimensionless, else refused"""
    pfs, ro, rp, rs = state(ctx, c)
    u = c["unit"]
    n = len(ro.ix)
    k = ctx.scalar("k", lo=1)
    v = reals(ctx, "f", n, lo=1)
    q, s = pf.Q_(k, u), ser(v, ro.ix.pd(), None, u)
    if u not in RATIO:
        for nm, o in (("quantity", q), ("series", s)):
            for lab, fn in (("pfs*", lambda: pfs * o), ("pfs/", lambda: pfs / o), ("pfs+", lambda: pfs + o), ("pfs-", lambda: pfs - o), ("* of", lambda: pfs.__rmul__(o))):
                ctx.check(raises(fn), f"{lab}{nm} refused")
        return
    g = RATIO[u]
    check_state(ctx, pfs * q, ro.scale(k * g), rp, rs.scale(k * g), "pfs*quantity")
    check_state(ctx, pfs / q, ro.scale(1 / (k * g)), rp, rs.scale(1 / (k * g)), "pfs/quantity")
    f = [x * g for x in v]
    check_state(ctx, pfs * s, ro.scale(f), rp, rs.scale(f), "pfs*series")
    check_state(ctx, pfs / s, ro.scale([1 / x for x in f]), rp, rs.scale([1 / x for x in f]), "pfs/series")
    for lab, fn in (("pfs+", lambda: pfs + q), ("pfs-", lambda: pfs - q), ("pfs+series", lambda: pfs + s)):
        ctx.check(raises(fn), f"{lab} refused")


HED = [dict(freq="D", start="2024-02-28", n=34, tz=B, to="MS"), dict(freq="h", start="2024-03-31", n=23, tz=B, to="D"), dict(freq="D", start="2024-02-01 06:00", n=29, to="MS")]


@harness("V10", lambda t: prod(HED[: 2 if t == "quick" else 3], opts("how", "vol", "val"), [SO] if t == "quick" else [SO, dict(so="a,b", ss="flat")]), prio=3)
def hedge(ctx, c):
    """hedge of the unsourced volume at the unsourced prices; sourcing it"""
    from harnesses.v11_hedge import check_hedge

    if c["how"] == "val" and c["freq"] == "h":  # non-linear: 3 distinct values, repeating
        ix = mkix(c)
        n, i = len(ix), ix.pd()
        rep = lambda nm, **kw: (reals(ctx, nm, 3, **kw) * n)[:n]
        q, p, r, s = rep("o", lo=-1000, hi=-600), rep("p", lo=1), rep("r", lo=1), rep("s", lo=10, hi=200)
        ro, rp, rs = Ref("VOLUME", ix, q=q), Ref("PRICE", ix, p=p), Ref("COMPLETE", ix, q=s, r=r)
        pfs = pf.PfState(pf.PfLine({"q": ser(q, i)}), pf.PfLine({"p": ser(p, i)}), pf.PfLine({"q": ser(s, i), "r": ser(r, i)}))
    else:
        pfs, ro, rp, rs = state(ctx, c)
    ru = unsourced(ro, rp, rs)
    ref = hedge_ref(ro.ix, ru.q, rp.p, c["how"], c["to"])
    check_hedge(ctx, pfs.hedge_of_unsourced(c["how"], None, c["to"]), ref, "hedge")
    if len(ref.ix) == len(ro.ix):
        s = pfs.source_unsourced(c["how"], None, c["to"])
        es = rs.flatten().add(Ref("COMPLETE", ref.ix, q=ref.q, r=ref.r))
        check_line(ctx, s.offtakevolume, ro, "offtake")
        check_line(ctx, s.unsourcedprice, rp, "unsourcedprice")
        check_line(ctx, s.sourced, es, "sourced", check_p=False)
        uq = [-(a + b) for a, b in zip(vals(s.offtake.q, "MWh"), vals(s.sourced.q, "MWh"))]
        _, groups = products(ro.ix, c["to"])
        for j, g in enumerate(groups):
            if c["how"] == "vol":
                ctx.eq(ssum([uq[k] for k in g]), 0.0, f"remaining volume of product {j}")
            else:
                ctx.eq(ssum([uq[k] * rp.p[k] for k in g]), 0.0, f"remaining value of product {j}")


@harness("V10", lambda t: prod([dict(MS3, cut=[1, 3]), dict(D3B6, cut=[0, 2]), dict(QS2B, n=4, cut=[1, 2])], [SO, dict(so="a,b", ss="a(x),b"), dict(so="flat", ss=None)]))
def select(ctx, c):
    """loc / slice: every part is limited to the selected periods"""
    pfs, ro, rp, rs = state(ctx, c)
    a, b = c["cut"]
    pos = list(range(a, b))
    i = ro.ix.pd()
    exp = [x.take(pos) for x in (ro, rp, rs)]
    stop = i[b] if b < len(i) else None
    check_state(ctx, pfs.slice[i[a] : stop], *exp, "slice")
    check_state(ctx, pfs.loc[i[a] : i[b - 1]], *exp, "loc")
    check_state(ctx, pfs.loc[str(i[a].tz_localize(None)) : str(i[b - 1].tz_localize(None))], *exp, "loc by text")
