from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V05",
     bounds="two operands over 1-25 delivery periods (monthly, daily, quarterly incl. anchored, yearly, hourly incl. 23/25-hour days); all four kinds; flat, nested (2-3 children), nested in nested; equal, partial and no overlap; complete lines: every combination of zero / non-zero volumes for 1 period, volumes of one sign for 2+ periods; symbolic values in [-1000, 1000]; histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="nesting deeper than 2; longer indices; NaN input values; float rounding")

Q_ = pf.Q_
PAIRS = [
    dict(MS2, start2="2024-01-01", n2=2),
    dict(MS2, start2="2024-02-01", n2=2),
    dict(D3B6, start2="2024-03-31 06:00", n2=4),
    dict(QF2, start2="2023-08-01", n2=2),
    dict(YA2, start2="2024-04-01", n2=1),
]
LONG = [dict(H23, start2="2024-03-31", n2=23), dict(H25, start2="2024-10-27", n2=25), dict(H24, start2="2024-02-28 06:00", n2=48)]
STRUCT = [("flat", "flat"), ("a,b", "a,b"), ("a,b", "a,c"), ("flat", "a,b"), ("a(x,y)", "a(y),b"), ("a", "a(x)")]


def cfgs(tier):
    th = tier == "thorough"
    out = []
    for i, ix in enumerate(PAIRS):
        for kind in AVAIL:
            for j, (s1, s2) in enumerate(STRUCT):
                if th or (i + j) % 3 == 0 or (j == 2 and i < 2):
                    out.append(dict(ix, kind=kind, s1=s1, s2=s2))
    for i, ix in enumerate(LONG):
        for k, kind in enumerate(AVAIL):
            if th or i == k % 3:
                out.append(dict(ix, kind=kind, s1="flat", s2="flat"))
    return out


def pair(ctx, c, **kw):
    kx = ky = kw
    if c["kind"] == "COMPLETE":
        kx, ky = dict(lo=1), kw or dict(lo=1)
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["s1"], **kx)
    y, ry = mkline(ctx, "y", c["kind"], mkix(dict(c, start=c["start2"], n=c["n2"])), c["s2"], **ky)
    return x, rx, y, ry


@harness("V05", cfgs, prio=1)
def add(ctx, c):
    x, rx, y, ry = pair(ctx, c)
    check_line(ctx, x + y, rx.add(ry), "x+y")


@harness("V05", cfgs, prio=2)
def sub(ctx, c):
    x, rx, y, ry = pair(ctx, c, **(dict(lo=-1000, hi=-1) if c["kind"] == "COMPLETE" else {}))
    neg = ry.scale(-1)
    check_line(ctx, x - y, rx.add(neg), "x-y", check_p=c["kind"] != "COMPLETE")


def zcfg(tier):
    ixs = [dict(MS2, n=1, start2="2024-01-01", n2=1), dict(D2, n=1, start2="2024-03-30", n2=1)]
    return prod(ixs, [dict(s1="flat", s2="flat", how="w"), dict(s1="flat", s2="flat", how="q"), dict(s1="flat", s2="a,b", how="q"), dict(s1="a", s2="a,b", how="q")])[:: 1 if tier == "thorough" else 2]


@harness("V05", zcfg)
def add_zero_volumes(ctx, c):
    """complete lines, any zero pattern of the volumes"""
    x, rx = mkline(ctx, "x", "COMPLETE", mkix(c), c["s1"], c["how"])
    y, ry = mkline(ctx, "y", "COMPLETE", mkix(dict(c, start=c["start2"], n=c["n2"])), c["s2"], c["how"])
    check_line(ctx, x + y, rx.add(ry), "x+y")
    check_line(ctx, x - y, rx.add(ry.scale(-1)), "x-y")


@harness("V05", lambda t: prod([MS2, D3B6], opts("kind", *AVAIL), opts("s1", "flat", "a,b")))
def neutral(ctx, c):
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["s1"], lo=1)
    for name, f in [("None", lambda: x + None), ("0", lambda: x + 0), ("0.0", lambda: x - 0.0), ("None+", lambda: None + x), ("sum", lambda: sum([x])), ("zeros", lambda: x + ser([0.0] * len(rx.ix), x.index))]:
        check_line(ctx, f(), rx, "x+" + name)
    check_line(ctx, sum([x, x, x]), rx.add(rx).add(rx), "sum")
    check_line(ctx, 0 - x, rx.scale(-1), "0-x", check_p=False)


def oth(tier):
    out = prod([dict(MS3B, start2="2024-02-01", n2=3), dict(MS3B, start2="2024-03-01", n2=1), dict(D3B6, start2="2024-03-31 06:00", n2=4), dict(H23, start2="2024-03-31", n2=23)], opts("col", "w", "q", "p", "r"), opts("s1", "flat", "a,b"))
    return out if tier == "thorough" else out[:16] + out[16::3]


@harness("V05", oth)
def other_types(ctx, c):
    """the other operand as dictionary, list, frame, series, quantity or number; on either side"""
    col = c["col"]
    kind = {"w": "VOLUME", "q": "VOLUME", "p": "PRICE", "r": "REVENUE"}[col]
    unit = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}[col]
    x, rx = mkline(ctx, "x", kind, mkix(c), c["s1"])
    iy = mkix(dict(c, start=c["start2"], n=c["n2"]))
    v = reals(ctx, "v", len(iy))
    val = [a * h for a, h in zip(v, iy.durs)] if col == "w" else v
    ry = Ref(kind, iy, **{{"w": "q"}.get(col, col): val})
    if c["s1"] != "flat":
        rx = rx.flatten()
    tot, dif, rev = rx.add(ry), rx.add(ry.scale(-1)), ry.add(rx.scale(-1))
    s = ser(v, iy.pd(), None, unit)
    plain = ser(v, iy.pd())
    for name, o in [("dict", {col: s}), ("plain dict", {col: plain}), ("list", [s]), ("frame", pd.DataFrame({col: s})), ("series", s)]:
        check_line(ctx, x + o, tot, f"x+{name}")
        check_line(ctx, x - o, dif, f"x-{name}")
        if name not in ("frame", "series"):
            check_line(ctx, o + x, tot, f"{name}+x")
            check_line(ctx, o - x, rev, f"{name}-x")
    k = ctx.scalar("k")
    n = len(rx.ix)
    kv = [k * h for h in rx.ix.durs] if col == "w" else [k] * n
    rk = Ref(kind, rx.ix, **{{"w": "q"}.get(col, col): kv})
    check_line(ctx, {col: k} + x, rx.add(rk), "{number}+x")
    check_line(ctx, {col: k} - x, rk.add(rx.scale(-1)), "{number}-x")
    check_line(ctx, x - {col: Q_(k, unit)}, rx.add(rk.scale(-1)), "x-{quantity}")


def rej(tier):
    out = [dict(MS2, kind=k, kind2=k2) for k in AVAIL for k2 in AVAIL if k != k2]
    for k in AVAIL:
        out += [dict(MS2, kind=k, kind2=k, alt=a) for a in (
            dict(freq="D", start="2024-01-01", n=31), dict(tz=B), dict(start="2024-03-01"), dict(start="2024-01-01 06:00"))]
    return out if tier == "thorough" else out[::2] + out[13:15]


@harness("V05", lambda t: prod([MS2, D3B6] if t == "quick" else [MS2, D3B6, QF2, YA2, H23], opts("kind", *AVAIL), opts("case", "zerosum", "one", "middle", "free", "unit"), opts("s1", "flat", "a,b")))
def dimensionless(ctx, c):
    """a dimensionless series with any nonzero value cannot be added or subtracted"""
    ix = mkix(c)
    n = len(ix)
    x, _ = mkline(ctx, "x", c["kind"], ix, c["s1"], lo=1)
    f = reals(ctx, "f", n)
    e = ctx.real("e", lo=0.1)
    if c["case"] in ("zerosum", "unit"):
        f = [e, -e] + [0.0] * (n - 2) if n > 1 else [e]
    elif c["case"] == "one":
        f = [0.0] * (n - 1) + [e]
    elif c["case"] == "middle":
        f = [0.0] * (n // 2) + [e] + [0.0] * (n - n // 2 - 1)
    else:
        f = [e] + f[1:]
    s = ser(f, ix.pd(), None, "dimensionless" if c["case"] == "unit" else None)
    ctx.check(raises(lambda: x + s), "line + nonzero dimensionless series rejected")
    ctx.check(raises(lambda: x - s), "line - nonzero dimensionless series rejected")
    ctx.check(raises(lambda: s + x), "nonzero dimensionless series + line rejected")


@harness("V05", rej)
def rejected(ctx, c):
    """unequal kind, incompatible index or no overlap at all: an error, never a number"""
    x, _ = mkline(ctx, "x", c["kind"], mkix(c), "flat", lo=1)
    y, _ = mkline(ctx, "y", c["kind2"], mkix(dict(c, **c.get("alt", {}))), "flat", lo=1)
    nx, _ = mkline(ctx, "nx", c["kind"], mkix(c), "a", lo=1)
    ctx.check(raises(lambda: x + y), "x+y rejected")
    ctx.check(raises(lambda: x - y), "x-y rejected")
    ctx.check(raises(lambda: nx + y), "nested+y rejected")
    ctx.check(raises(lambda: x + 1.5), "x + plain number rejected")


@harness("V05", lambda t: [dict(base=list(b), kind=k, s1=s) for b, k, s in ((("D", "2024-03-30", 3), "VOLUME", "flat"), (("D", "2024-02-28", 4), "PRICE", "a,b"), (("MS", "2024-02-01", 3), "REVENUE", "flat"), (("MS", "2024-02-01", 2), "VOLUME", "a,b"), (("QS", "2024-01-01", 2), "PRICE", "flat"))], max_paths=20)
def history(ctx, c):
    """results do not depend on which lines were added before"""
    cs = alike(*c["base"])
    for k, ic in enumerate(cs + cs[::-1]):
        ix = mkix(ic)
        x, rx = mkline(ctx, f"x{k}_", c["kind"], ix, c["s1"])
        y, ry = mkline(ctx, f"y{k}_", c["kind"], mkix(dict(ic, n=ic["n"] - 1)), c["s1"])
        check_line(ctx, x + y, rx.add(ry), f"x+y {k}")
        check_line(ctx, y - x, ry.add(rx.scale(-1)), f"y-x {k}")
