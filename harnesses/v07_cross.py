from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V07",
     bounds="two lines of different (or equal) kind over 1-25 periods, with equal or partial overlap; flat and nested; other operand also as quantity, series with unit, or dictionary; symbolic values in [-1000, 1000] (volumes and prices of one sign where more than one period; any zero / non-zero pattern for one period)",
     outside="longer indices; NaN values; float rounding")
Q_ = pf.Q_

PAIRS = [
    dict(MS2, start2="2024-01-01", n2=2),
    dict(MS3, start2="2024-03-01", n2=3),
    dict(D3B6, start2="2024-03-31 06:00", n2=4),
    dict(QF2, start2="2023-08-01", n2=2),
    dict(YA2, start2="2024-04-01", n2=2),
    dict(H23, start2="2024-03-31", n2=23),
    dict(H25, start2="2024-10-26", n2=49),
]
ST = [("flat", "flat"), ("a,b", "flat"), ("flat", "a(x),b"), ("a,b", "a,c")]


def cfgs(tier):
    out = []
    for i, ix in enumerate(PAIRS):
        for j, (s1, s2) in enumerate(ST):
            if (tier == "thorough" or j == 0 or (i + j) % 4 == 0) and (ix["n"] < 5 or j == 0):
                out.append(dict(ix, s1=s1, s2=s2))
    return out


def build(ctx, c, k1, k2, **kw):
    x, rx = mkline(ctx, "x", k1, mkix(c), c["s1"], **kw)
    y, ry = mkline(ctx, "y", k2, mkix(dict(c, start=c["start2"], n=c["n2"])), c["s2"], **kw)
    rx, ry = rx.flatten(), ry.flatten()
    from symx.oracle import common

    pos = common(rx.ix, ry.ix)
    return x, y, rx.take([i for i, _ in pos]), ry.take([j for _, j in pos])


@harness("V07", cfgs, prio=1)
def volume_x_price(ctx, c):
    """volume (energy) x price = revenue"""
    v, p, rv, rp = build(ctx, c, "VOLUME", "PRICE")
    ref = Ref("REVENUE", rv.ix, r=[a * b for a, b in zip(rv.q, rp.p)])
    check_line(ctx, v * p, ref, "volume*price")
    check_line(ctx, p * v, ref, "price*volume")


@harness("V07", cfgs, prio=1)
def union(ctx, c):
    """two of volume / price / revenue -> complete"""
    v, p, rv, rp = build(ctx, c, "VOLUME", "PRICE", lo=1)
    ref = Ref("COMPLETE", rv.ix, q=rv.q, r=[a * b for a, b in zip(rv.q, rp.p)])
    for lab, l in (("volume|price", v | p), ("price|volume", p | v)):
        check_line(ctx, l, ref, lab)


@harness("V07", cfgs)
def union_revenue(ctx, c):
    v, r, rv, rr = build(ctx, c, "VOLUME", "REVENUE", lo=1)
    check_line(ctx, v | r, Ref("COMPLETE", rv.ix, q=rv.q, r=rr.r), "volume|revenue")
    check_line(ctx, r | v, Ref("COMPLETE", rv.ix, q=rv.q, r=rr.r), "revenue|volume")


@harness("V07", cfgs)
def union_price_revenue(ctx, c):
    p, r, rp, rr = build(ctx, c, "PRICE", "REVENUE", lo=1)
    check_line(ctx, p | r, Ref("COMPLETE", rp.ix, q=[b / a for a, b in zip(rp.p, rr.r)], r=rr.r), "price|revenue")


def finite(xs):
    return all(isinstance(x, SymReal) or abs(x) < 1e300 for x in xs)


@harness("V07", lambda t: prod([dict(MS2, n=1), dict(D2, n=1)] + ([dict(QF2, n=1), dict(MS2)] if t != "quick" else []), opts("s1", "flat", "a,b")), max_paths=600)
def zero_values(ctx, c):
    """any zero / non-zero pattern of the values; what is not determined is not made up"""
    ix = mkix(c)
    n = len(ix)
    v, rv = mkline(ctx, "v", "VOLUME", ix, c["s1"], "q")
    p, rp = mkline(ctx, "p", "PRICE", ix, "flat")
    r, rr = mkline(ctx, "r", "REVENUE", ix, "flat")
    rv, rp, rr = rv.flatten(), rp.flatten(), rr.flatten()
    check_line(ctx, v * p, Ref("REVENUE", ix, r=[a * b for a, b in zip(rv.q, rp.p)]), "volume*price")
    u = v | p
    ctx.check(u.kind.name == "COMPLETE", "volume|price kind")
    for lab, got, exp in (("q", vals(u.q, "MWh"), rv.q), ("p", vals(u.p, "Eur/MWh"), rp.p), ("r", vals(u.r, "Eur"), [a * b for a, b in zip(rv.q, rp.p)])):
        for k in range(n):
            ctx.eq(got[k], exp[k], f"volume|price {lab}[{k}]")
    u = v | r
    for lab, got, exp in (("q", vals(u.q, "MWh"), rv.q), ("r", vals(u.r, "Eur"), rr.r)):
        for k in range(n):
            ctx.eq(got[k], exp[k], f"volume|revenue {lab}[{k}]")
    u = p | r
    for lab, got, exp in (("p", vals(u.p, "Eur/MWh"), rp.p), ("r", vals(u.r, "Eur"), rr.r)):
        for k in range(n):
            ctx.eq(got[k], exp[k], f"price|revenue {lab}[{k}]")
    for lab, got, top, bot in (
        ("q of price|revenue", vals(u.q, "MWh"), rr.r, rp.p),
        ("p of volume|revenue", vals((v | r).p, "Eur/MWh"), rr.r, rv.q),
        ("revenue/price", vals((r / p).q, "MWh"), rr.r, rp.p),
        ("revenue/volume", vals((r / v).p, "Eur/MWh"), rr.r, rv.q),
        ("ratio of prices", vals(p / p.flatten(), "dimensionless"), rp.p, rp.p),
    ):
        for k in range(n):
            if ctx.branch(ctx.cond(bot[k], "eq", 0)):
                ctx.check(not finite([got[k]]), f"{lab}: unknown [{k}]")
            else:
                ctx.eq(got[k], top[k] / bot[k], f"{lab} [{k}]")


@harness("V07", cfgs)
def quotients(ctx, c):
    """revenue / volume = price, revenue / price = volume"""
    r, v, rr, rv = build(ctx, c, "REVENUE", "VOLUME", lo=1)
    check_line(ctx, r / v, Ref("PRICE", rr.ix, p=[a / b for a, b in zip(rr.r, rv.q)]), "revenue/volume")
    p, rp = mkline(ctx, "p", "PRICE", mkix(dict(c, start=c["start2"], n=c["n2"])), "flat", nz=True)
    from symx.oracle import common

    pos = common(mkix(c), rp.ix)
    pp = [rp.p[j] for _, j in pos]
    check_line(ctx, r / p, Ref("VOLUME", rr.ix, q=[a / b for a, b in zip(rr.r, pp)]), "revenue/price")


@harness("V07", lambda t: [dict(c, kind=k) for c in cfgs(t) for k in ("VOLUME", "PRICE", "REVENUE")])
def ratio(ctx, c):
    """same kind: dimensionless ratio"""
    x, y, rx, ry = build(ctx, c, c["kind"], c["kind"], lo=1)
    s = x / y
    col = {"VOLUME": "q", "PRICE": "p", "REVENUE": "r"}[c["kind"]]
    check_series(ctx, s, rx.ix, [a / b for a, b in zip(getattr(rx, col), getattr(ry, col))], "ratio", "dimensionless")


@harness("V07", lambda t: prod([MS2, D3B6, H23], opts("struct", "flat", "a,b")))
def other_types(ctx, c):
    """the other operand as quantity / series with unit / dictionary"""
    ix = mkix(c)
    d = ix.durs
    v, rv = mkline(ctx, "v", "VOLUME", ix, c["struct"])
    p, rp = mkline(ctx, "p", "PRICE", ix, c["struct"])
    r, rr = mkline(ctx, "r", "REVENUE", ix, c["struct"])
    v2, rv2 = mkline(ctx, "v2", "VOLUME", ix, "flat", lo=1)
    p2, rp2 = mkline(ctx, "p2", "PRICE", ix, "flat", lo=1)
    k = ctx.scalar("k")
    R = lambda q, pr: Ref("REVENUE", ix, r=[a * b for a, b in zip(q, pr)])
    n = len(ix)
    check_line(ctx, v * Q_(k, "ctEur/kWh"), R(rv.q, [k * 10] * n), "volume*quantity")
    check_line(ctx, p * Q_(k, "GW"), R([k * 1000 * h for h in d], rp.p), "price*power")
    check_line(ctx, p * Q_(k, "GWh"), R([k * 1000] * n, rp.p), "price*energy")
    check_line(ctx, p * {"w": k}, R([k * h for h in d], rp.p), "price*dict")
    s = reals(ctx, "s", n)
    check_line(ctx, v * ser(s, ix.pd(), None, "Eur/MWh"), R(rv.q, s), "volume*series")
    check_line(ctx, v * ser(s, ix.pd(), None, "Eur/kWh"), R(rv.q, [a * 1000 for a in s]), "volume*series")
    j = ctx.scalar("j", nonzero=True)
    check_line(ctx, r / Q_(j, "Eur/MWh"), Ref("VOLUME", ix, q=[a / j for a in rr.r]), "revenue/quantity")
    check_line(ctx, r / Q_(j, "GWh"), Ref("PRICE", ix, p=[a / (j * 1000) for a in rr.r]), "revenue/energy")
    check_series(ctx, v / Q_(j, "MW"), ix, [a / (j * h) for a, h in zip(rv.q, d)], "volume/power", "dimensionless")
    sv = reals(ctx, "t", n, lo=1)
    w = {"w": ser(sv, ix.pd())}
    qs = [a * h for a, h in zip(sv, d)]
    check_line(ctx, {"r": ser(s, ix.pd())} / v2, Ref("PRICE", ix, p=[a / b for a, b in zip(s, rv2.q)]), "{revenue}/volume")
    check_line(ctx, [ser(s, ix.pd(), None, "Eur")] / p2, Ref("VOLUME", ix, q=[a / b for a, b in zip(s, rp2.p)]), "[revenue]/price")
    check_line(ctx, r / w, Ref("PRICE", ix, p=[a / b for a, b in zip(rr.r, qs)]), "revenue/{power}")
    check_line(ctx, w * p, R(qs, rp.p), "{power}*price")
    check_line(ctx, w | p2, Ref("COMPLETE", ix, q=qs, r=[a * b for a, b in zip(qs, rp2.p)]), "{power}|price")
    check_line(ctx, p2 | w, Ref("COMPLETE", ix, q=qs, r=[a * b for a, b in zip(qs, rp2.p)]), "price|{power}")
    check_line(ctx, v2 | Q_(k, "ctEur/kWh"), Ref("COMPLETE", ix, q=rv2.q, r=[a * k * 10 for a in rv2.q]), "volume|quantity")
    check_line(ctx, v + Q_(k, "GW"), Ref("VOLUME", ix, q=[a + k * 1000 * h for a, h in zip(rv.q, d)]), "volume+power")
    check_line(ctx, r - Q_(k, "kEur"), Ref("REVENUE", ix, r=[a - k * 1000 for a in rr.r]), "revenue-quantity")


@harness("V07", lambda t: prod([MS2, QF2, H25], opts("struct", "flat", "a,b")))
def complete_parts(ctx, c):
    """.volume, .price and .revenue of a complete line; and union of parts restores it"""
    x, rx = mkline(ctx, "x", "COMPLETE", mkix(c), c["struct"], lo=1)
    check_line(ctx, x.volume, rx.only("VOLUME"), ".volume")
    check_line(ctx, x.revenue, rx.only("REVENUE"), ".revenue")
    pr = [a / b for a, b in zip(rx.r, rx.q)]
    check_line(ctx, x.price, Ref("PRICE", rx.ix, p=pr), ".price")
    check_line(ctx, x.volume | x.price, rx.flatten(), "volume|price")
    check_line(ctx, x.volume * x.price, rx.only("REVENUE").flatten(), "volume*price")
    check_line(ctx, x.revenue / x.volume, Ref("PRICE", rx.ix, p=pr), "revenue/volume")


FORBID_MUL = [("VOLUME", "VOLUME"), ("PRICE", "PRICE"), ("REVENUE", "REVENUE"), ("VOLUME", "REVENUE"), ("PRICE", "REVENUE"), ("COMPLETE", "PRICE"), ("COMPLETE", "VOLUME"), ("COMPLETE", "COMPLETE")]
FORBID_DIV = [("VOLUME", "PRICE"), ("PRICE", "VOLUME"), ("VOLUME", "REVENUE"), ("PRICE", "REVENUE"), ("COMPLETE", "COMPLETE"), ("COMPLETE", "PRICE"), ("VOLUME", "COMPLETE")]
FORBID_OR = [("VOLUME", "VOLUME"), ("PRICE", "PRICE"), ("REVENUE", "REVENUE"), ("COMPLETE", "PRICE"), ("COMPLETE", "COMPLETE")]


@harness("V07", lambda t: prod([MS2], opts("s1", "flat", "a,b")))
def forbidden(ctx, c):
    """every other combination is an error"""
    ix = mkix(c)
    l1 = {k: mkline(ctx, "x" + k[0], k, ix, c["s1"], lo=1)[0] for k in AVAIL}
    l2 = {k: mkline(ctx, "y" + k[0], k, ix, "flat", lo=1)[0] for k in AVAIL}
    for a, b in FORBID_MUL:
        ctx.check(raises(lambda: l1[a] * l2[b]), f"{a}*{b} rejected")
        ctx.check(raises(lambda: l2[b] * l1[a]), f"{b}*{a} rejected")
    for a, b in FORBID_DIV:
        ctx.check(raises(lambda: l1[a] / l2[b]), f"{a}/{b} rejected")
    for a, b in FORBID_OR:
        ctx.check(raises(lambda: l1[a] | l2[b]), f"{a}|{b} rejected")
    ctx.check(raises(lambda: l1["VOLUME"] | 3.0), "volume|number rejected")
    alts = [dict(freq="D", start="2024-01-01", n=31), dict(MS2, tz=B), dict(MS2, start="2024-05-01"), dict(MS2, start="2024-01-01 06:00")]
    for alt in alts:
        p = mkline(ctx, "z", "PRICE", mkix(alt), "flat", lo=1)[0] if alt is alts[0] else pf.PfLine({"p": ser([1.0, 2.0], mkix(alt).pd())})
        v = l1["VOLUME"]
        for f, lab in ((lambda: v * p, "*"), (lambda: v | p, "|"), (lambda: l1["REVENUE"] / p, "/"), (lambda: l1["PRICE"] / p, "/same")):
            ctx.check(raises(f), f"incompatible index rejected ({lab})")
