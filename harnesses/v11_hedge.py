from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *
from symx.oracle import common

meta("V11",
     bounds="hedges of 24-96 (quarter)hours to day products and of 2-62 days to day / month / quarter products, and of a month of hours with up to 6 distinct symbolic values per day pattern; base and peak / offpeak products with 4 peak definitions; volume and value hedge; start-of-day 00:00 and 06:00; 23- and 25-hour days; incomplete products at either end; volumes of any sign, prices of any sign with a nonzero sum per product; symbolic values in [-1000, 1000]; histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="prices whose duration-weighted sum over a product is zero; quarter and year products from hourly values; float rounding")

DCASES = [
    dict(freq="h", start="2024-03-31", n=23, tz=B, to="D"),
    dict(freq="h", start="2024-10-26", n=49, tz=B, to="D"),
    dict(freq="h", start="2024-03-30 06:00", n=23, tz=B, to="D"),
    dict(freq="h", start="2024-02-28", n=48, tz=None, to="D"),
    dict(freq="15min", start="2024-02-29 06:00", n=96, tz=None, to="D"),
    dict(freq="15min", start="2024-03-31", n=92, tz=B, to="D"),
    dict(freq="D", start="2024-03-30", n=3, tz=B, to="D"),
    dict(freq="D", start="2024-02-28", n=34, tz=B, to="MS"),
    dict(freq="D", start="2024-02-01 06:00", n=60, tz=B, to="MS"),
    dict(freq="D", start="2024-01-31", n=31, tz=None, to="MS"),
    dict(freq="D", start="2023-12-30", n=95, tz=None, to="QS"),
    dict(freq="D", start="2024-01-30 06:00", n=34, tz=None, to="MS"),
]


def cfgs(tier):
    th = tier == "thorough"
    mixed = prod(DCASES if th else [DCASES[2], DCASES[6], DCASES[11]], opts("how", "val", *(["vol"] if th else [])), opts("sign", "mixed"))
    return prod(DCASES if th else DCASES[:4] + DCASES[6:8] + [DCASES[9], DCASES[11]], opts("how", "vol", "val")) + mixed


def build(ctx, c, m=None, **kp):
    """volume and price lines; m: number of distinct symbols (repeating pattern)"""
    ix = mkix(c)
    n = len(ix)
    m = m or n
    if c.get("sign") == "mixed":  # every second price is negative; the sum over a product is not 0
        p = [ctx.real(f"p{i}", **(dict(lo=-100, hi=-1) if i % 2 else dict(lo=301))) for i in range(m)]
    else:
        p = reals(ctx, "p", m, **(kp or dict(lo=1)))
    q = reals(ctx, "q", m)
    q, p = [q[i % m] for i in range(n)], [p[i % m] for i in range(n)]
    i = ix.pd()
    return ix, q, p, pf.PfLine({"q": ser(q, i)}), pf.PfLine({"p": ser(p, i)})


def check_hedge(ctx, h, ref, label):
    ctx.check(h.kind.name == "COMPLETE" and h.structure.name == "FLAT", label + " kind")
    if not check_index(ctx, h.index, ref.ix, label):
        return
    check_values(ctx, lambda c: vals(getattr(h, c), UNITS[c]), ref, label, False)
    for i, (a, b) in enumerate(zip(vals(h.p, "Eur/MWh"), ref.p)):
        ctx.eq(a, b, f"{label}.p[{i}]")


@harness("V11", cfgs, prio=1)
def base(ctx, c):
    """uniform power and price per product; preserves volume ('vol') or value ('val') of the product"""
    ix, q, p, v, pr = build(ctx, c)
    ref = hedge_ref(ix, q, p, c["how"], c["to"])
    if not len(ref.ix):
        ctx.check(raises(lambda: v.hedge_with(pr, c["how"], None, c["to"])) or len(v.hedge_with(pr, c["how"], None, c["to"]).index) == 0, "no full product: no hedge")
        return
    h = v.hedge_with(pr, c["how"], None, c["to"])
    check_hedge(ctx, h, ref, "hedge")
    # conservation, directly on the result
    hq, hr = vals(h.q, "MWh"), vals(h.r, "Eur")
    keep, groups = products(ix, c["to"])
    at = {k: j for j, k in enumerate(keep)}
    for j, g in enumerate(groups):
        if c["how"] == "vol":
            ctx.eq(ssum([hq[at[k]] for k in g]), ssum([q[k] for k in g]), f"volume of product {j}")
        else:
            ctx.eq(ssum([hq[at[k]] * p[k] for k in g]), ssum([q[k] * p[k] for k in g]), f"value of product {j}")


PCASES = [
    dict(freq="h", start="2024-03-01", n=743, tz=B, to="MS"),
    dict(freq="h", start="2024-02-01", n=696, tz=None, to="MS"),
    dict(freq="h", start="2024-09-30 06:00", n=24 + 745, tz=B, to="MS"),
    dict(freq="h", start="2024-02-01 06:00", n=720, tz=None, to="MS"),
]


@harness("V11", lambda t: prod(PCASES, opts("how", "vol", "val"), opts("peak", "german", "morning", "mon7", "weekend") if t == "thorough" else opts("peak", "german", "mon7"), opts("m", 6)) + prod(PCASES[:1], opts("how", "val"), opts("peak", "german"), opts("m", 6), opts("sign", "mixed")), prio=2)
def peak(ctx, c):
    """peak and offpeak products are hedged separately"""
    ix, q, p, v, pr = build(ctx, c, c["m"])
    h = v.hedge_with(pr, c["how"], mkpeak(c["peak"]), c["to"])
    check_hedge(ctx, h, hedge_ref(ix, q, p, c["how"], c["to"], c["peak"]), "hedge")


LCASES = [
    dict(freq="D", start="2023-12-30", n=95, tz=None, to="QS", m=7),
    dict(freq="D", start="2024-01-01 06:00", n=121, tz=B, to="QS", m=5),
    dict(freq="D", start="2023-12-25", n=380, tz=B, to="YS", m=3),
    dict(freq="D", start="2023-12-31", n=33, tz=N, to="MS", m=11),
    dict(freq="15min", start="2024-01-31", n=2976, tz=None, to="MS", m=4),
    dict(freq="h", start="2024-01-01", n=2183, tz=B, to="QS", m=3),
]


@harness("V11", lambda t: prod([LCASES[0], LCASES[2], LCASES[3]] if t == "quick" else LCASES, opts("how", "vol", "val"), opts("peak", None, "weekend")), prio=2)
def long(ctx, c):
    """products of a quarter or year"""
    ix, q, p, v, pr = build(ctx, c, c["m"])
    pk = mkpeak(c["peak"]) if c["peak"] else None
    if c["freq"] == "D" and c["peak"]:
        ctx.check(raises(lambda: v.hedge_with(pr, c["how"], pk, c["to"]), ValueError), "peak products need hourly values")
        return
    h = v.hedge_with(pr, c["how"], pk, c["to"])
    check_hedge(ctx, h, hedge_ref(ix, q, p, c["how"], c["to"], *([c["peak"]] if pk else [])), "hedge")


@harness("V11", lambda t: prod([DCASES[0], DCASES[11]], opts("how", "vol", "val")))
def tool(ctx, c):
    """the same on series (with and without unit); negative prices; complete and nested lines; partial overlap"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    w, p = reals(ctx, "w", n), reals(ctx, "p", n, hi=-1)
    d = ix.durs
    ref = hedge_ref(ix, [a * h for a, h in zip(w, d)], p, c["how"], c["to"])
    exp_w = [a / h for a, h in zip(ref.q, ref.ix.durs)]
    for lab, a, b, un in (("plain", ser(w, i), ser(p, i), (None, None)), ("units", ser(w, i, None, "MW"), ser(p, i, None, "ctEur/kWh"), ("MW", "ctEur/kWh")), ("power unit", ser(w, i, None, "kW"), ser(p, i), ("kW", None)), ("price unit", ser(w, i), ser(p, i, None, "Eur/MWh"), (None, "Eur/MWh"))):
        ow, op = pf.hedge(a, b, c["how"], None, c["to"])
        check_series(ctx, ow, ref.ix, exp_w, lab + " w", un[0])
        check_series(ctx, op, ref.ix, ref.p, lab + " p", un[1])


@harness("V11", lambda t: prod([DCASES[3], DCASES[7]] + ([DCASES[8]] if t == "thorough" else []), opts("how", "vol", "val")))
def structures(ctx, c):
    """nested and complete lines are hedged by their (total) volume; periods without price are dropped"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    x, rx = mkline(ctx, "x", "VOLUME", ix, "a,b(y)", "q", lo=1)
    p = reals(ctx, "p", n, lo=1)
    pr = pf.PfLine({"p": ser(p, i)})
    ref = hedge_ref(ix, rx.q, p, c["how"], c["to"])
    check_hedge(ctx, x.hedge_with(pr, c["how"], None, c["to"]), ref, "nested")
    cx = x.flatten() | pf.PfLine({"p": ser([7.0] * n, i)})
    check_hedge(ctx, cx.hedge_with(pr, c["how"], None, c["to"]), ref, "complete")
    # prices for the later part only
    cut = 24 if ix.freq == "h" else {"2024-02-28": 2, "2024-02-01 06:00": 29}[c["start"]]
    pr2 = pf.PfLine({"p": ser(p[cut:], ix.sub(range(cut, n)).pd())})
    six = ix.sub(range(cut, n))
    check_hedge(ctx, x.hedge_with(pr2, c["how"], None, c["to"]), hedge_ref(six, rx.q[cut:], p[cut:], c["how"], c["to"]), "partial overlap")


@harness("V11", lambda t: [dict(MS2)])
def rejected(ctx, c):
    ix, iy = mkix(DCASES[0]), mkix(MS2)
    L = lambda k, ix: mkline(ctx, k[0] + ix.freq, k, ix, "flat", lo=1)[0]
    v, p, r = L("VOLUME", ix), L("PRICE", ix), L("REVENUE", ix)
    vm, pm = L("VOLUME", iy), L("PRICE", iy)
    bad = {
        "price line": lambda: p.hedge_with(p, "vol", None, "D"),
        "revenue line": lambda: r.hedge_with(p, "vol", None, "D"),
        "monthly line": lambda: vm.hedge_with(pm, "vol", None, "MS"),
        "hedge with volume": lambda: v.hedge_with(v, "vol", None, "D"),
        "unknown constraint": lambda: v.hedge_with(p, "foo", None, "D"),
        "hour products": lambda: v.hedge_with(p, "vol", None, "h"),
        "peak and daily products": lambda: v.hedge_with(p, "vol", mkpeak("german"), "D"),
        "monthly series": lambda: pf.hedge(vm.w, pm.p, "vol", None, "QS"),
        "different frequency": lambda: v.hedge_with(pf.PfLine({"p": ser([1.0], mkix(D2).pd()[:1])}), "vol", None, "D"),
    }
    for lab, f in bad.items():
        ctx.check(raises(f), lab + " rejected")


@harness("V11", lambda t: [dict(base=list(b), to=to, how=h) for b, to in ((("D", "2024-02-01", 29), "MS"), (("D", "2024-03-30", 3), "D")) for h in ("vol", "val")], max_paths=20)
def history(ctx, c):
    """hedges do not depend on earlier ones"""
    cs = alike(*c["base"])
    for k, ic in enumerate(cs + cs[::-1]):
        ix = mkix(ic)
        m = min(4, len(ix))
        rep = lambda l: [l[j % m] for j in range(len(ix))]
        q, p = rep(reals(ctx, f"q{k}_", m)), rep([30.0 + j * j + k for j in range(m)])
        ref = hedge_ref(ix, q, p, c["how"], c["to"])
        v, pr = pf.PfLine({"q": ser(q, ix.pd())}), pf.PfLine({"p": ser(p, ix.pd())})
        if len(ref.ix):
            check_hedge(ctx, v.hedge_with(pr, c["how"], None, c["to"]), ref, f"hedge {k}")
