from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *
from symx.oracle import common

meta("V09",
     bounds="portfolio states over 1-25 periods; offtake and sourced flat or nested (also: no sourced volume); created from portfolio lines or from timeseries; unsourced prices and sourced line covering the same or a longer period; symbolic values in [-1000, 1000]; every zero / non-zero pattern for 1 period, otherwise positions without zero volume",
     outside="nesting deeper than 2; longer indices; NaN input values; float rounding")

CASES = [dict(MS2), dict(D3B6), dict(QF2), dict(YA2), dict(H23), dict(H25), dict(H24)]
ST = [("flat", "flat"), ("flat", None), ("a,b", "flat"), ("flat", "a,b"), ("a,b(x,y)", "a,b"), ("a", None)]


def cfgs(tier):
    out = []
    for i, ix in enumerate(CASES):
        for j, (so, ss) in enumerate(ST):
            if len(mkix(ix)) > 4 and j > 1:
                continue
            if tier == "thorough" or i < 2 or j < 2 or (i + j) % 3 == 0:
                out.append(dict(ix, so=so, ss=ss))
    return out


# the net position never vanishes within these ranges (see any_position for that)
REGIMES = dict(
    short=(dict(lo=-1000, hi=-600), dict(lo=10, hi=200), dict(lo=1)),
    long=(dict(lo=-100, hi=-10), dict(lo=300, hi=900), dict(hi=-1)),
    inverse=(dict(lo=10, hi=300), dict(lo=1, hi=90), dict(hi=-1)),
    sold=(dict(lo=-90, hi=-1), dict(lo=-900, hi=-300), dict(lo=1)),
)


def rcfgs(tier):
    out = []
    for i, c in enumerate(cfgs(tier)):
        for j, r in enumerate(REGIMES):
            if c["ss"] is None and r in ("long", "sold"):
                continue
            if tier == "thorough" or (i + j) % 4 == 0 or r == "long" and i % 3 == 0:
                out.append(dict(c, reg=r))
    return out


def state(ctx, c, ix=None, nm="", ko=dict(lo=-1000, hi=-600), ks=dict(lo=10, hi=200), kp=dict(lo=1), how="q"):
    """-> PfState, ref offtake, ref price, ref sourced.  |offtake| > |sourced| unless told otherwise"""
    if c.get("reg"):
        ko, ks, kp = REGIMES[c["reg"]]
    ix = ix or mkix(c)
    o, ro = mkline(ctx, nm + "o", "VOLUME", ix, c["so"], how, **ko)
    p, rp = mkline(ctx, nm + "u", "PRICE", ix, "flat", **kp)
    if c["ss"] is None:
        s, rs = None, Ref("COMPLETE", ix, q=[0.0] * len(ix), r=[0.0] * len(ix))
    else:
        s, rs = mkline(ctx, nm + "s", "COMPLETE", ix, c["ss"], how, **ks)
    return pf.PfState(o, p, s), ro, rp, rs


def unsourced(ro, rp, rs):
    q = [-(a + b) for a, b in zip(ro.q, rs.q)]
    return Ref("COMPLETE", ro.ix, q=q, r=[a * b for a, b in zip(q, rp.p)])


@harness("V09", rcfgs, prio=1)
def identities(ctx, c):
    """offtake + sourced + unsourced = 0; pnl_cost = sourced + unsourced; unsourced at unsourced price"""
    pfs, ro, rp, rs = state(ctx, c)
    ix = ro.ix
    check_index(ctx, pfs.index, ix, "pfs")
    check_line(ctx, pfs.offtakevolume, ro, "offtakevolume")
    check_line(ctx, pfs.offtake, ro, "offtake")
    check_line(ctx, pfs.unsourcedprice, rp, "unsourcedprice")
    check_line(ctx, pfs.sourced, rs, "sourced")
    ru = unsourced(ro, rp, rs)
    check_line(ctx, pfs.unsourced, ru, "unsourced")
    check_line(ctx, pfs.netposition, ru.scale(-1), "netposition", check_p=False)
    # price of netposition = unsourced price
    for i, (a, b) in enumerate(zip(vals(pfs.netposition.p, "Eur/MWh"), rp.p)):
        ctx.eq(a, b, f"netposition.p[{i}]")
    total = Ref("COMPLETE", ix, q=[-a for a in ro.q], r=[a + b for a, b in zip(rs.r, ru.r)])
    pc = pfs.pnl_cost
    ctx.check(pc.structure.name == "NESTED" and sorted(pc) == ["sourced", "unsourced"], "pnl_cost parts")
    check_line(ctx, pc, total, "pnl_cost", children=False)
    check_line(ctx, pc["unsourced"], ru, "pnl_cost/unsourced")
    check_line(ctx, pc["sourced"], rs, "pnl_cost/sourced")


@harness("V09", lambda t: [dict(c, so="flat", ss=s, how=h) for c in (dict(MS2, n=1), dict(D2, n=1)) for s in ("flat", "a,b", None) for h in ("w", "q") if (s, h) != ("a,b", "w")])
def any_position(ctx, c):
    """short, long and closed positions (any zero / non-zero pattern)"""
    pfs, ro, rp, rs = state(ctx, c, ko={}, ks={}, kp={}, how="q" if c["ss"] == "a,b" else c["how"])
    ru = unsourced(ro, rp, rs)
    check_line(ctx, pfs.unsourced, ru, "unsourced")
    check_line(ctx, pfs.unsourcedprice, rp, "unsourcedprice")
    check_line(ctx, pfs.netposition, ru.scale(-1), "netposition")
    total = Ref("COMPLETE", ro.ix, q=[-a for a in ro.q], r=[a + b for a, b in zip(rs.r, ru.r)])
    check_line(ctx, pfs.pnl_cost, total, "pnl_cost", children=False)


@harness("V09", rcfgs)
def fractions(ctx, c):
    """sourced and unsourced fraction of the offtake; sum to 1"""
    pfs, ro, rp, rs = state(ctx, c)
    f, u = pfs.sourcedfraction, pfs.unsourcedfraction
    check_series(ctx, f, ro.ix, [-a / b for a, b in zip(rs.q, ro.q)], "sourcedfraction", "dimensionless")
    check_series(ctx, u, ro.ix, [(a + b) / b for a, b in zip(rs.q, ro.q)], "unsourcedfraction", "dimensionless")


@harness("V09", rcfgs)
def mtm(ctx, c):
    """mark-to-market of the sourced volume = q * (market price - sourced price)"""
    if c["ss"] is None:
        return
    pfs, ro, rp, rs = state(ctx, c)
    m = pfs.mtm_of_sourced()
    check_line(ctx, m, Ref("REVENUE", ro.ix, r=[q * p - r for q, p, r in zip(rs.q, rp.p, rs.r)]), "mtm")


LONGER = [
    (dict(MS2), dict(start="2023-12-01", n=4)),
    (dict(D3B6), dict(start="2024-03-29 06:00", n=6)),
    (dict(QF2), dict(start="2023-11-01", n=4)),
    (dict(H23), dict(start="2024-03-31", n=47)),
]


@harness("V09", lambda t: [dict(i, alt=alt, so="flat", ss=s) for i, alt in LONGER for s in ("flat", "a,b") if i["n"] < 5 or s == "flat"])
def trimmed(ctx, c):
    """prices and sourced volume that cover a longer period are trimmed to the offtake period"""
    ix, ix2 = mkix(c), mkix(dict(c, **c["alt"]))
    o, ro = mkline(ctx, "o", "VOLUME", ix, "flat", "w", lo=-1000, hi=-600)
    p, rp = mkline(ctx, "u", "PRICE", ix2, "flat", lo=1)
    s, rs = mkline(ctx, "s", "COMPLETE", ix2, c["ss"], "q", lo=1, hi=100)
    pos = [j for _, j in common(ix, ix2)]
    rp, rs = rp.take(pos), rs.take(pos)
    pfs = pf.PfState(o, p, s)
    check_line(ctx, pfs.unsourcedprice, rp, "unsourcedprice")
    check_line(ctx, pfs.sourced, rs, "sourced")
    check_line(ctx, pfs.unsourced, unsourced(ro, rp, rs), "unsourced", check_p=False)
    # not covering: error
    ctx.check(raises(lambda: pf.PfState(o, p.slice[: o.index[-1]], s) if len(ix) > 1 else 1 / 0), "prices do not cover: rejected")
    ctx.check(raises(lambda: pf.PfState(o, p, s.slice[: o.index[-1]]) if len(ix) > 1 else 1 / 0), "sourced does not cover: rejected")


@harness("V09", lambda t: prod([MS2, D3B6, H24], opts("off", "qo", "wo"), opts("src", "qs,ps", "ws,rs", "qs,rs", "ps,rs", "ws,ps", "")))
def from_series(ctx, c):
    """same state when created from (plain) timeseries"""
    ix = mkix(c)
    i, n, d = ix.pd(), len(ix), ix.durs
    # sourced volume stays below offtake
    o = reals(ctx, "o", n, lo=-100000, hi=-60000) if c["off"] == "qo" else reals(ctx, "o", n, lo=-1000, hi=-600)
    u = reals(ctx, "u", n, lo=1)
    kw = {"pu": ser(u, i), c["off"]: ser(o, i)}
    qo = o if c["off"] == "qo" else [a * h for a, h in zip(o, d)]
    v = {}
    for nm in filter(None, c["src"].split(",")):
        v[nm[0]] = reals(ctx, nm, n, lo=1, hi=20)
        kw[nm] = ser(v[nm[0]], i)
    pfs = pf.PfState.from_series(**kw)
    if v:
        q = v.get("q") or ([a * h for a, h in zip(v["w"], d)] if "w" in v else [a / b for a, b in zip(v["r"], v["p"])])
        r = v.get("r") or [a * b for a, b in zip(q, v["p"])]
    else:
        q = r = [0.0] * n
    rs = Ref("COMPLETE", ix, q=q, r=r)
    ro, rp = Ref("VOLUME", ix, q=qo), Ref("PRICE", ix, p=u)
    check_line(ctx, pfs.offtakevolume, ro, "offtake")
    check_line(ctx, pfs.unsourcedprice, rp, "unsourcedprice")
    check_line(ctx, pfs.sourced, rs, "sourced")
    check_line(ctx, pfs.unsourced, unsourced(ro, rp, rs), "unsourced", check_p=False)


@harness("V09", lambda t: [dict(MS2)])
def rejected(ctx, c):
    """missing or wrong parts, incompatible timeseries: error"""
    ix = mkix(c)
    L = {k: mkline(ctx, k[0], k, ix, "flat", lo=1)[0] for k in AVAIL}
    o, p, s, r = L["VOLUME"], L["PRICE"], L["COMPLETE"], L["REVENUE"]
    bad = {
        "no offtake": lambda: pf.PfState(None, p, s),
        "no prices": lambda: pf.PfState(o, None, s),
        "offtake without volume": lambda: pf.PfState(p, p, s),
        "offtake is revenue": lambda: pf.PfState(r, p, s),
        "price is volume": lambda: pf.PfState(o, o, s),
        "price is revenue": lambda: pf.PfState(o, r, s),
        "sourced without price": lambda: pf.PfState(o, p, o),
        "sourced without volume": lambda: pf.PfState(o, p, p),
        "sourced is revenue": lambda: pf.PfState(o, p, r),
    }
    for alt in (dict(freq="D", start="2024-01-01", n=60), dict(MS2, tz=B), dict(MS2, start="2024-01-01 06:00"), dict(MS2, start="2024-02-01"), dict(MS2, start="2025-01-01")):
        i2 = mkix(alt)
        p2 = pf.PfLine({"p": ser([float(k) for k in range(len(i2))], i2.pd())})
        s2 = pf.PfLine({"w": ser([float(k + 1) for k in range(len(i2))], i2.pd()), "p": ser([float(k) for k in range(len(i2))], i2.pd())})
        nm = f"{alt['freq']} {alt['start']} {alt.get('tz')}"
        bad["prices " + nm] = lambda p2=p2: pf.PfState(o, p2, s)
        bad["sourced " + nm] = lambda s2=s2: pf.PfState(o, p, s2)
    for lab, f in bad.items():
        ctx.check(raises(f), lab + " rejected")
    # surplus information is dropped
    st = pf.PfState(s, s, s)
    check_series(ctx, st.offtakevolume.q, ix, vals(s.q, "MWh"), "offtake volume", "MWh")
    ctx.check(st.offtakevolume.kind.name == "VOLUME" and st.unsourcedprice.kind.name == "PRICE", "kinds")
    check_series(ctx, st.unsourcedprice.p, ix, vals(s.p, "Eur/MWh"), "unsourced price", "Eur/MWh")
