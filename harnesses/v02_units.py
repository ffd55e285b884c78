from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *
import numpy as np
from fractions import Fraction as F

meta("V02",
     bounds="18 units for power, energy, price, revenue, on series of 1-25 periods, single quantities and series of individual quantities; symbolic magnitudes in [-1000, 1000]",
     outside="other units of the registry; float rounding")
Q_ = pf.Q_
UN = {
    "w": {"MW": 1, "kW": F(1, 1000), "GW": 1000, "W": F(1, 10**6), "TW": 10**6, "kWh/min": F(60, 1000)},
    "q": {"MWh": 1, "kWh": F(1, 1000), "GWh": 1000, "TWh": 10**6, "GJ": F(1, 1) / F(36, 10)},
    "p": {"Eur/MWh": 1, "Eur/kWh": 1000, "ctEur/kWh": 10, "kEur/GWh": 1, "Eur/GWh": F(1, 1000), "MEur/TWh": 1},
    "r": {"Eur": 1, "kEur": 1000, "MEur": 10**6, "ctEur": F(1, 100)},
}


def ok(u):
    try:
        Q_(1.0, u)
        return True
    except Exception:
        return False


def factor(u, col):
    """size of unit u in the default unit of the dimension"""
    return F(Q_(1.0, u).to(UNITS[col]).magnitude).limit_denominator(10**9)


ALLU = [dict(col=c, unit=u) for c in UN for u in UN[c]]


def ref(col, ix, v):
    if col == "w":
        return Ref("VOLUME", ix, q=[a * h for a, h in zip(v, ix.durs)])
    return Ref({"q": "VOLUME", "p": "PRICE", "r": "REVENUE"}[col], ix, **{col: v})


@harness("V02", lambda t: prod([MS2, D3B6, H23] if t == "thorough" else [MS2, D3B6], ALLU))
def series(ctx, c):
    """any unit of the right dimension: same physical value"""
    ix = mkix(c)
    v = reals(ctx, "v", len(ix))
    f = UN[c["col"]][c["unit"]]
    s = ser(v, ix.pd(), "nm", c["unit"])
    exp = ref(c["col"], ix, [a * f for a in v])
    check_line(ctx, pf.PfLine(s), exp, "series")
    check_line(ctx, pf.PfLine({c["col"]: s}), exp, "keyed series")
    check_line(ctx, pf.PfLine([s]), exp, "list")
    d = pf.tools.unit.defaultunit(s)
    check_series(ctx, d, ix, [a * f for a in v], "defaultunit", UNITS[c["col"]])
    ctx.check(pf.tools.unit.to_name(s.pint.units) == c["col"], "name of dimension")
    m, u = pf.tools.unit.split_magn_unit(s)
    g = factor(u, c["col"])
    for i, (a, b) in enumerate(zip(vals(m), v)):
        ctx.eq(a * g, b * f, f"magnitude[{i}]")


@harness("V02", lambda t: prod([MS2, H24], ALLU))
def quantity(ctx, c):
    """single quantities, also next to a series"""
    ix = mkix(c)
    k = ctx.scalar("k")
    f = UN[c["col"]][c["unit"]]
    q = Q_(k, c["unit"])
    d = pf.tools.unit.defaultunit(q)
    ctx.eq(val(d, UNITS[c["col"]]), k * f, "defaultunit")
    o = "p" if c["col"] != "p" else "q"
    s = reals(ctx, "s", len(ix), lo=1)
    pfl = pf.PfLine({o: ser(s, ix.pd()), c["col"]: q}) if c["col"] != "r" else None
    if pfl is not None:
        for i, x in enumerate(vals(getattr(pfl, c["col"]), UNITS[c["col"]])):
            ctx.eq(x, k * f, f"broadcast[{i}]")
    # arithmetic with a quantity in that unit
    base = reals(ctx, "b", len(ix))
    x = pf.PfLine({c["col"]: ser(base, ix.pd())})
    y = x + q
    for i, g in enumerate(vals(getattr(y, c["col"]), UNITS[c["col"]])):
        ctx.eq(g, base[i] + k * f, f"plus quantity[{i}]")


@harness("V02", lambda t: prod([MS2, D3B6], ALLU))
def series_of_quantities(ctx, c):
    """series of individual quantities, with (possibly) different units of one dimension"""
    ix = mkix(c)
    col = c["col"]
    f = UN[col][c["unit"]]
    ks = [ctx.scalar(f"k{i}") for i in range(len(ix))]
    us = [c["unit"]] + [UNITS[col]] * (len(ix) - 1)
    a = np.empty(len(ix), dtype=object)
    for i, (k, u) in enumerate(zip(ks, us)):
        a[i] = Q_(k, u)
    s = pd.Series(a, ix.pd())
    exp = ref(col, ix, [k * (f if i == 0 else 1) for i, k in enumerate(ks)])
    check_line(ctx, pf.PfLine({col: s}), exp, "keyed")
    check_line(ctx, pf.PfLine(s), exp, "inferred")


@harness("V02", lambda t: [dict(MS2, col=c, unit=u) for c in UN for c2 in UN if c2 != c for u in (list(UN[c2])[:2]) if {c, c2} != {"x"}] + [dict(MS2, col=c, unit=u) for c in UN for u in ("degC", "h", "Eur/MW", "dimensionless")])
def rejected(ctx, c):
    """unit of another dimension under a name: error"""
    ix = mkix(c)
    v = reals(ctx, "v", len(ix), lo=1)
    k = ctx.scalar("k", lo=1)
    ctx.check(raises(lambda: pf.PfLine({c["col"]: ser(v, ix.pd(), None, c["unit"])})), "series rejected")
    o = "p" if c["col"] != "p" else "w"
    ctx.check(raises(lambda: pf.PfLine({o: ser(v, ix.pd()), c["col"]: Q_(k, c["unit"])})), "quantity rejected")
    mixed = pd.Series([Q_(3.0, UNITS[c["col"]]), Q_(5.0, c["unit"])], ix.pd(), dtype=object)
    ctx.check(raises(lambda: pf.PfLine({c["col"]: mixed})), "mixed dimensions rejected")


@harness("V02", lambda t: prod([MS2, D3B6, H24], opts("kind", *AVAIL)))
def exposed(ctx, c):
    """values are exposed in the documented default unit"""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), "flat", lo=1)
    for col in AVAIL[c["kind"]]:
        s = getattr(x, col)
        ctx.check(factor(s.pint.units, col) == 1, f"unit of {col}")
        ctx.check(factor(x.df[col].pint.units, col) == 1, f"unit of df.{col}")
    for col in set("wqpr") - set(AVAIL[c["kind"]]):
        ctx.check(raises(lambda: getattr(x, col)), f"no {col}: error")


@harness("V02", lambda t: prod([MS2], ALLU))
def default_unit(ctx, c):
    """conversion to the default unit of numbers, quantities, series and dataframes"""
    U = pf.tools.unit
    col, f = c["col"], UN[c["col"]][c["unit"]]
    k = ctx.scalar("k")
    v = reals(ctx, "v", 3)
    exp = [x * f for x in v]
    q = U.defaultunit(Q_(k, c["unit"]))
    ctx.eq(factor(q.units, col), 1, "default unit")
    ctx.eq(val(q, UNITS[col]), k * f, "quantity")
    m, u = U.split_magn_unit(Q_(k, c["unit"]))
    ctx.eq(m, k * f, "magnitude of quantity")
    ctx.eq(factor(u, col), 1, "unit of quantity")
    i = list("abc")
    for lab, s in (("series", ser(v, i, None, c["unit"])), ("series in frame", pd.DataFrame({"z": ser(v, i), "x": ser(v, i, None, c["unit"])}))):
        o = U.defaultunit(s)
        o = o if lab == "series" else o["x"]
        ctx.check(list(o.index) == i, lab + " index")
        ctx.eq(factor(o.pint.units, col), 1, lab + " in default unit")
        for a, b in zip(vals(o, UNITS[col]), exp):
            ctx.eq(a, b, lab)
    m, u = U.split_magn_unit(ser(v, i, None, c["unit"]))
    ctx.eq(factor(u, col), 1, "unit of series")
    for a, b in zip(vals(m), exp):
        ctx.eq(a, b, "magnitude of series")
    ctx.check(U.to_name(pf.Q_(1.0, c["unit"]).units) == col, "name of unit")
    for a, b in zip(vals(U.defaultunit(ser(v, i))), v):
        ctx.eq(a, b, "series without unit")
    m, u = U.split_magn_unit(ser(v, i))
    ctx.check(u is None, "no unit")
    ctx.eq(U.defaultunit(k), k, "number")
    ctx.eq(U.defaultunit(Q_(k, "dimensionless")), k, "dimensionless quantity")
    for a, b in zip(vals(U.defaultunit(ser(v, i, None, "dimensionless"))), v):
        ctx.eq(a, b, "dimensionless series")


@harness("V02", lambda t: [dict(col=c, unit=u, other=o) for c in UN for u in list(UN[c])[1:3] for o in (None, "q", "p") if o != c and (o is None or c in "qp")])
def individual_quantities(ctx, c):
    """series of individual quantities, also of different dimensions"""
    U = pf.tools.unit
    col, f = c["col"], UN[c["col"]][c["unit"]]
    ks = [ctx.scalar(f"k{i}") for i in range(3)]
    us = [c["unit"], UNITS[col], c["unit"] if c["other"] is None else list(UN[c["other"]])[1]]
    cs = [col, col, c["other"] or col]
    exp = [k * UN[x][u] for k, u, x in zip(ks, us, cs)]
    a = np.empty(3, dtype=object)
    for i, (k, u) in enumerate(zip(ks, us)):
        a[i] = Q_(k, u)
    s = pd.Series(a, list("abc"))
    o = U.defaultunit(s)
    for i, (x, e) in enumerate(zip(o, exp)):
        ctx.eq(val(x, UNITS[cs[i]]), e, f"value[{i}]")
    m, u = U.split_magn_unit(s)
    mm = list(m) if m.dtype == object else vals(m)
    for i, e in enumerate(exp):
        ctx.eq(mm[i], e, f"magnitude[{i}]")
        ctx.eq(factor(u.iloc[i] if isinstance(u, pd.Series) else u, cs[i]), 1, f"unit[{i}]")
    if c["other"] is None:
        for i, (x, e) in enumerate(zip(vals(U.avoid_frame_of_objects(s), UNITS[col]), exp)):
            ctx.eq(x, e, f"uniform[{i}]")
    else:
        ctx.check(raises(lambda: U.avoid_frame_of_objects(s)), "different dimensions rejected")


@harness("V02", lambda t: [dict(col=c, unit=u) for c in UN for u in UN[c]])
def frames(ctx, c):
    """each column of a dataframe on its own; names of units"""
    U = pf.tools.unit
    col, f = c["col"], UN[c["col"]][c["unit"]]
    v, w, k = reals(ctx, "v", 3), reals(ctx, "w", 3), [ctx.scalar(f"k{i}") for i in range(3)]
    a = np.empty(3, dtype=object)
    for i in range(3):
        a[i] = Q_(k[i], c["unit"] if i else UNITS[col])
    i = list("abc")
    df = pd.DataFrame({"x": ser(v, i, None, c["unit"]), "y": ser(w, i, None, "kEur"), "z": ser(v, i), "o": pd.Series(a, i)})[["z", "x", "o", "y"]]
    want = {"x": (UNITS[col], [e * f for e in v]), "y": ("Eur", [e * 1000 for e in w]), "o": (UNITS[col], [k[0], k[1] * f, k[2] * f])}
    got = U.avoid_frame_of_objects(df)
    ctx.check(list(got.columns) == list("zxoy") and list(got.index) == i, "columns and rows")
    for nm, (u, exp) in want.items():
        for j, (g, e) in enumerate(zip(vals(got[nm], u), exp)):
            ctx.eq(g, e, f"avoid_frame_of_objects: {nm}[{j}]")
    for j, (g, e) in enumerate(zip(vals(got["z"]), v)):
        ctx.eq(g, e, f"avoid_frame_of_objects: z[{j}]")
    b = a.copy()
    b[1] = Q_(k[1], "degC")
    ctx.check(raises(lambda: U.avoid_frame_of_objects(pd.DataFrame({"x": ser(v, i), "o": pd.Series(b, i)}))), "different dimensions in a column: error")
    ctx.check(factor(U.from_name(col), col) == 1, "unit of name")
    ctx.check(raises(lambda: U.from_name("x")), "unknown name")
    ctx.check(raises(lambda: U.to_name(Q_(1.0, "Eur/MW").units)), "unknown dimension")
    n = pd.Series([3, 5, -7], i)
    ctx.check(vals(U.defaultunit(n)) == [3.0, 5.0, -7.0] and U.defaultunit(n).dtype == float, "integers")


RATIO = {"fraction": 1, "ctEur/Eur": F(1, 100), "kWh/MWh": F(1, 1000), "GW/MW": 1000, "dimensionless": 1}


@harness("V02", lambda t: [dict(unit=u) for u in RATIO])
def ratios(ctx, c):
    """dimensionless quantities and series in any unit become plain fractions"""
    U = pf.tools.unit
    f = RATIO[c["unit"]]
    k, v, i = ctx.scalar("k"), reals(ctx, "v", 3), list("abc")

    def plain(x):
        return x.to("dimensionless").magnitude if hasattr(x, "magnitude") else x

    def plains(s):
        return vals(s.astype("pint[dimensionless]")) if hasattr(s, "pint") else vals(s)

    ctx.eq(plain(U.defaultunit(Q_(k, c["unit"]))), k * f, "quantity")
    ctx.eq(U.split_magn_unit(Q_(k, c["unit"]))[0], k * f, "magnitude of quantity")
    s = ser(v, i, None, c["unit"])
    for lab, g in (("series", U.defaultunit(s)), ("frame", U.defaultunit(pd.DataFrame({"z": ser(v, i), "x": s}))["x"]), ("magnitude", U.split_magn_unit(s)[0])):
        ctx.check(list(g.index) == i, lab + " index")
        for a, b in zip(plains(g), v):
            ctx.eq(a, b * f, lab)
    ctx.eq(plain(pf.wavg(s, [1, 1, 2])), (v[0] + v[1] + 2 * v[2]) * f / 4, "weighted average")
    d = pf.wavg(pd.DataFrame({"x": s, "y": ser(v[::-1], i)}), [1, 3], axis=1)
    for j, g in enumerate(d):
        ctx.eq(plain(g), (v[j] * f + 3 * v[2 - j]) / 4, "weighted average with plain numbers")
