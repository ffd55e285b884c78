from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V06",
     bounds="one line over 1-25 periods, all kinds, flat / nested / nested in nested; factor: any number in [-1000, 1000] as float, quantity, dictionary or one factor per period (also covering only part of the periods); symbolic values in [-1000, 1000]",
     outside="longer indices; NaN values; float rounding")
Q_ = pf.Q_


def cfgs(tier):
    ixs = [MS2, D3B6, QF2, YA2, H23, H25, H24]
    out = []
    for i, ix in enumerate(ixs):
        for j, kind in enumerate(AVAIL):
            for k, st in enumerate(("flat", "a,b", "a(x,y),b")):
                if len(mkix(ix)) > 4 and st != "flat":
                    continue
                if tier == "thorough" or k == 0 or (i + j + k) % 4 == 0:
                    out.append(dict(ix, kind=kind, struct=st))
    return out


def leaves(pfl):
    return [pfl] if pfl.structure.name == "FLAT" else [l for k in pfl for l in leaves(pfl[k])]


def same_prices(ctx, new, old, label, pos=None):
    """scaling leaves the price of a complete line unchanged"""
    if old.kind.name != "COMPLETE":
        return
    for a, b in zip(leaves(new), leaves(old)):
        pa, pb = vals(a.p, "Eur/MWh"), vals(b.p, "Eur/MWh")
        pb = pb if pos is None else [pb[i] for i in pos]
        ctx.check(len(pa) == len(pb), label + " length")
        for i, (x, y) in enumerate(zip(pa, pb)):
            ctx.eq(x, y, f"{label} price[{i}]")


@harness("V06", cfgs, prio=1)
def by_number(ctx, c):
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1)
    k = ctx.scalar("k")
    ref = rx.scale(k)
    y = x * k
    check_line(ctx, y, ref, "x*k", check_p=False)
    same_prices(ctx, y, x, "x*k")
    y = k * x
    check_line(ctx, y, ref, "k*x", check_p=False)
    same_prices(ctx, y, x, "k*x")
    y = -x
    check_line(ctx, y, rx.scale(-1), "-x", check_p=False)
    same_prices(ctx, y, x, "-x")


@harness("V06", cfgs, prio=2)
def divide(ctx, c):
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1)
    k = ctx.scalar("k", nonzero=True)
    y = x / k
    check_line(ctx, y, rx.scale(1 / k), "x/k", check_p=False)
    same_prices(ctx, y, x, "x/k")
    d = ctx.scalar("d", lo=1)
    y = x / ser([d] * len(rx.ix), x.index)
    check_line(ctx, y, rx.scale(1 / d), "x/series", check_p=False)


@harness("V06", lambda t: [c for c in cfgs(t) if c["n"] < 5])
def by_series(ctx, c):
    """one factor per period; only the common periods are kept"""
    ix = mkix(c)
    x, rx = mkline(ctx, "x", c["kind"], ix, c["struct"], lo=1)
    n = len(ix)
    f = reals(ctx, "f", n)
    for lab, s in [("float", ser(f, ix.pd())), ("dimensionless", ser(f, ix.pd(), None, "dimensionless"))]:
        y = x * s
        check_line(ctx, y, rx.scale(f), "x*" + lab, check_p=False)
        same_prices(ctx, y, x, "x*" + lab)
    if n > 1:
        for pos in ([1] if n == 2 else [0, 1], list(range(1, n))):
            y = x * ser([f[i] for i in pos], ix.sub(pos).pd())
            check_line(ctx, y, rx.take(pos).scale([f[i] for i in pos]), "partial", check_p=False)
            same_prices(ctx, y, x, "partial", pos)


@harness("V06", lambda t: [dict(c, k=k) for c in cfgs(t)[:: 1 if t == "thorough" else 3] if c["n"] < 5 for k in (0, 1, -1, 3)])
def by_constant(ctx, c):
    """ints and quantities"""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1)
    k = c["k"]
    for lab, y in [("int", x * k), ("quantity", x * Q_(float(k), "dimensionless")), ("percent", x * Q_(k * 1000.0, "kWh/MWh")), ("dict", x * {"nodim": float(k)})][:: 1 if k else 1]:
        check_line(ctx, y, rx.scale(k), lab, check_p=False)
        same_prices(ctx, y, x, lab)


@harness("V06", lambda t: [dict(MS2, kind=k) for k in AVAIL])
def laws(ctx, c):
    """k(x + y) = kx + ky, (j + k)x = jx + kx, x - x has value 0"""
    ix = mkix(c)
    x, rx = mkline(ctx, "x", c["kind"], ix, "flat", lo=1)
    y, ry = mkline(ctx, "y", c["kind"], ix, "flat", lo=1)
    k, j = ctx.scalar("k", lo=1), ctx.scalar("j", lo=1)
    a, b = (x + y) * k, x * k + y * k
    e, f = x * core.asfloat(j + k), x * j + x * k
    for col in AVAIL[c["kind"]]:
        for lab, l, r in (("k(x+y)", a, b), ("(j+k)x", e, f)):
            for i, (u, v) in enumerate(zip(vals(getattr(l, col), UNITS[col]), vals(getattr(r, col), UNITS[col]))):
                ctx.eq(u, v, f"{lab} {col}[{i}]")
    check_line(ctx, x - x, rx.scale(0), "x-x", check_p=False)


@harness("V06", lambda t: [dict(MS2, kind=k) for k in AVAIL])
def rejected(ctx, c):
    x, _ = mkline(ctx, "x", c["kind"], mkix(c), "flat", lo=1)
    ctx.check(raises(lambda: x * None), "x*None rejected")
    ctx.check(raises(lambda: x * Q_(1.0, "degC")), "x*temperature rejected")
    ctx.check(raises(lambda: x * Q_(2.0, "h")), "x*time rejected")
    ctx.check(raises(lambda: 1.0 / x), "1/x rejected")
    ctx.check(raises(lambda: x * ser([1.0] * 31, pd.date_range("2024-01-01", periods=31, freq="D"))), "x*incompatible index rejected")
    ctx.check(raises(lambda: x * ser([1.0] * 2, pd.date_range("2025-01-01", periods=2, freq="MS"))), "x*series without overlap rejected")


RATIO = {"fraction": 1, "ctEur/Eur": 0.01, "kWh/MWh": 0.001, "min/h": 1 / 60, "GW/MW": 1000}


@harness("V06", lambda t: [dict(ix, kind=k, struct=s, unit=u) for i, ix in enumerate((MS2, D3B6)) for j, k in enumerate(AVAIL) for s in ("flat", "a,b") for l, u in enumerate(RATIO) if t == "thorough" or (i + j + l + len(s)) % 3 == 0])
def factor_units(ctx, c):
    """dimensionless factors in any unit are converted"""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1)
    u, g, n = c["unit"], RATIO[c["unit"]], len(rx.ix)
    k = ctx.scalar("k", lo=1)
    v = reals(ctx, "f", n, lo=1)
    f = [a * g for a in v]
    q, s = Q_(k, u), ser(v, rx.ix.pd(), None, u)
    for lab, y, r in (
        ("x*quantity", x * q, rx.scale(k * g)), ("x/quantity", x / q, rx.scale(1 / (k * g))), ("x*series", x * s, rx.scale(f)), ("x/series", x / s, rx.scale([1 / a for a in f])),
    ):
        check_line(ctx, y, r, lab, check_p=False)
        same_prices(ctx, y, x, lab)
    for lab, fn in (("x+quantity", lambda: x + q), ("x-quantity", lambda: x - q), ("x+series", lambda: x + s)):
        ctx.check(raises(fn), f"{lab} refused")
