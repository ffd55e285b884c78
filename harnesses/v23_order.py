"""Operations in different order (or undone) give the same line."""
from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *
from symx.oracle import to_wall

meta("V23",
     bounds="sequences of 2-3 operations (18 operations, all combinations that have to commute) on lines of all kinds, flat / nested / nested in nested, of 4-60 periods (quarterhours to years, DST days, start-of-day 06:00, anchored quarters), with independent symbolic values (volumes in [20, 1000], of the second line in [1, 10]; prices and revenues in [-1000, 1000])",
     outside="longer sequences; other values of volumes (zero patterns: V01, V05, V08); missing values; float rounding")

IX = {
    "month": dict(freq="MS", start="2024-01-01", n=6, tz=B, down="QS", up="D", cut=(3, 6)),
    "month06": dict(freq="MS", start="2023-11-01 06:00", n=6, tz=B, down="QS-FEB", up="D", cut=(3, 6)),
    "day06": dict(freq="D", start="2024-03-29 06:00", n=4, tz=B, down=None, up="h", cut=(1, 4)),
    "days": dict(freq="D", start="2024-02-01", n=60, tz=None, down="MS", up=None, cut=(29, 60)),
    "quarter": dict(freq="QS-FEB", start="2023-02-01", n=8, tz=None, down="YS-FEB", up="MS", cut=(4, 8)),
    "hour": dict(freq="h", start="2024-10-26", n=49, tz=B, down="D", up="15min", cut=(24, 49)),
    "year": dict(freq="YS", start="2023-01-01", n=3, tz=K, down=None, up="QS", cut=(0, 2)),
    "calendar": dict(freq="MS", start="2023-01-01", n=12, tz=N, down="YS", up=None, cut=None),
}
LIN = ("neg", "times", "over", "plus", "minus")
STR = ("down", "up", "slice", "loc", "flatten", "volume", "revenue", "reindex", "cut and paste", "year", "drop child")


def avail(op, c):
    """is structural operation defined for configuration"""
    x, deep = IX[c["ix"]], c["struct"] != "flat"
    if op in ("down", "up"):
        return x[op] is not None
    if op in ("slice", "cut and paste", "reindex"):
        return x["cut"] is not None
    if op == "loc":
        return x["cut"] is not None and "06:00" not in x["start"]
    if op in ("volume", "revenue"):
        return c["kind"] == "COMPLETE"
    if op == "year":
        return c["ix"] == "calendar"
    if op == "drop child":
        return deep
    return True


def small(c):
    x = IX[c["ix"]]
    return x["n"] <= 12


class Ops:
    def __init__(self, ctx, c):
        self.x = x = IX[c["ix"]]
        self.ix = mkix(x)
        if x["cut"]:
            a, b = x["cut"]
            self.left, self.right = stamp_(self.ix.lefts[a], self.ix.tz), stamp_(self.ix.rights[b - 1], self.ix.tz)
            self.mid = self.left if a else self.right
            ws = [to_wall(self.ix.lefts[k], self.ix.tz) for k in (a, b - 1)]
            fmt = "%Y-%m-%d" if self.ix.freq in ("D", "h") else "%Y-%m"
            self.labels = [w.strftime(fmt) for w in ws]
        self.k = ctx.scalar("k", lo=2, hi=5)

    def lin(self, op, a, b):
        return {
            "neg": lambda: -a,
            "times": lambda: a * self.k,
            "over": lambda: a / self.k,
            "plus": lambda: a + b,
            "minus": lambda: a - b,
        }[op]()

    def structural(self, op, a):
        if op == "down" or op == "up":
            return a.asfreq(self.x[op])
        if op == "slice":
            return a.slice[self.left : self.right]
        if op == "loc":
            return a.loc[self.labels[0] : self.labels[1]]
        if op == "flatten":
            return a.flatten()
        if op == "volume" or op == "revenue":
            return getattr(a, op)
        if op == "reindex":
            # only the part from (or before) the cut is kept, and further periods are added
            i = a.index
            keep = i[i >= self.left] if self.left > i[0] else i[i < self.right]
            more = pd.date_range(keep[0], periods=len(keep) + (24 if i.freq == "h" else 2), freq=i.freq)
            return a.reindex(more)
        if op == "cut and paste":
            return pf.concat([a.slice[self.mid :], a.slice[: self.mid]])
        if op == "year":
            return pf.map_to_year(a, 2025, None)
        if op == "drop child":
            return a.drop_child("a")
        raise ValueError(op)


def stamp_(inst, tz):
    from symx.oracle import stamp

    return stamp(inst, tz)


def mk(ctx, name, c, x, lo, hi=1000):
    """line with volumes in [lo, hi]"""
    kw = dict(lo=lo, hi=hi) if c["kind"] in ("COMPLETE", "VOLUME") else {}
    return mkline(ctx, name, c["kind"], mkix(x), c["struct"], "q", **kw)[0]


def same_line(ctx, x, y, label):
    """all that can be observed is the same, and consistent"""
    ctx.check(x.kind is y.kind, f"{label}: kind")
    ctx.check(x.structure is y.structure, f"{label}: structure")
    same = len(x.index) == len(y.index) and bool((x.index == y.index).all()) and x.index.freq == y.index.freq and str(x.index.tz) == str(y.index.tz)
    ctx.check(same, f"{label}: periods")
    if not same or x.kind is not y.kind:
        return
    dur = vals(x.index.duration, "h")
    for col in AVAIL[x.kind.name]:
        if col == "p" and x.kind.name == "COMPLETE":
            continue
        u, v = (vals(getattr(z, col), UNITS[col]) for z in (x, y))
        for i, (a, b) in enumerate(zip(u, v)):
            ctx.eq(a, b, f"{label}.{col}[{i}]")
        if col == "w":
            for i, (a, b) in enumerate(zip(u, vals(x.q, "MWh"))):
                ctx.eq(a * dur[i], b, f"{label}.w*duration[{i}]")
    if x.kind.name == "COMPLETE":
        for z, lab in ((x, "1"), (y, "2")):
            for i, (p, q, r) in enumerate(zip(vals(z.p, "Eur/MWh"), vals(z.q, "MWh"), vals(z.r, "Eur"))):
                check_complete_price(ctx, p, q, r, f"{label}.p{lab}[{i}]")
    if x.structure.name == "NESTED":
        ctx.check(sorted(x) == sorted(y), f"{label}: children")
        for k in x:
            if k in y:
                same_line(ctx, x[k], y[k], f"{label}/{k}")
        total(ctx, x, label)


def total(ctx, x, label):
    """nested line is the sum of its children"""
    for col in set(AVAIL[x.kind.name]) & set("qr") or {"p"}:
        parts = [vals(getattr(x[k], col), UNITS[col]) for k in x]
        for i, t in enumerate(vals(getattr(x, col), UNITS[col])):
            ctx.eq(t, ssum([p[i] for p in parts]), f"{label}: sum of children {col}[{i}]")


KS = [(k, s) for s in ("flat", "a,b", "a,b(x,y)") for k in ("VOLUME", "PRICE", "REVENUE", "COMPLETE")]


def cfgs1(tier):
    out = []
    for i, ix in enumerate(IX):
        for j, (k, s) in enumerate(KS):
            c = dict(ix=ix, kind=k, struct=s)
            if s != "flat" and not small(c) or (s == "a,b(x,y)" and k == "COMPLETE" and tier == "quick"):
                continue
            for m, f in enumerate(LIN):
                for n, g in enumerate(STR):
                    if not avail(g, c):
                        continue
                    if g == "up" and (s != "flat") and tier == "quick":
                        continue
                    if tier == "thorough" or (i + j + m + n) % 8 == 0:
                        out.append(dict(c, f=f, g=g))
    return out


@harness("V23", cfgs1)
def arithmetic(ctx, c):
    """adding, subtracting, negating and scaling commute with all operations that select, aggregate, spread or rearrange"""
    o = Ops(ctx, c)
    a = mk(ctx, "a", c, o.x, 20)
    b = mk(ctx, "b", c, o.x, 1, 10)
    f, g = c["f"], c["g"]
    same_line(ctx, o.structural(g, o.lin(f, a, b)), o.lin(f, o.structural(g, a), o.structural(g, b)), f"{f}, {g}")


# do not commute, or only if periods are aligned with each other
NOT = {frozenset(x) for x in (("up", "down"), ("reindex", "up"), ("reindex", "down"), ("reindex", "slice"), ("reindex", "loc"), ("reindex", "cut and paste"),
                              ("slice", "cut and paste"), ("loc", "cut and paste"), ("flatten", "drop child"), ("volume", "revenue"), ("year", "down"))}


def cfgs2(tier):
    out = []
    for i, ix in enumerate(IX):
        for j, (k, s) in enumerate(KS):
            c = dict(ix=ix, kind=k, struct=s)
            if s != "flat" and not small(c):
                continue
            for m, f in enumerate(STR):
                for n, g in enumerate(STR[:m]):
                    if not (avail(f, c) and avail(g, c)) or frozenset((f, g)) in NOT or ({f, g} == {"loc", "up"} and ix in ("quarter", "year")):
                        continue
                    if tier == "thorough" or (i + j + m + n) % 5 == 0:
                        out.append(dict(c, f=f, g=g))
    return out


@harness("V23", cfgs2)
def structure(ctx, c):
    """selecting, aggregating, spreading, flattening, taking components, mapping to a year, ... commute with each other"""
    o = Ops(ctx, c)
    a = mk(ctx, "a", c, o.x, 20)
    f, g = c["f"], c["g"]
    same_line(ctx, o.structural(f, o.structural(g, a)), o.structural(g, o.structural(f, a)), f"{f}, {g}")


def cfgs3(tier):
    out = []
    for i, ix in enumerate(IX):
        for j, (k, s) in enumerate(KS):
            c = dict(ix=ix, kind=k, struct=s)
            if not small(c) or (tier == "quick" and k == "COMPLETE" and s != "flat" and ix != "year"):
                continue
            if tier == "thorough" or (i + j) % 3 == 0:
                out.append(c)
    return out


@harness("V23", cfgs3)
def laws(ctx, c):
    """commutative, associative, distributive; subtraction undoes addition; division undoes multiplication; ..."""
    o = Ops(ctx, c)
    a, b = mk(ctx, "a", c, o.x, 20), mk(ctx, "b", c, o.x, 1, 10)
    d = mk(ctx, "d", c, o.x, 30)
    k = o.k
    same_line(ctx, a + b, b + a, "a + b")
    same_line(ctx, (a + b) + d, a + (b + d), "a + b + c")
    same_line(ctx, (a + b) - b, a, "a + b - b")
    same_line(ctx, -(a - b), b - a, "-(a - b)")
    same_line(ctx, a - b, a + -b, "a - b")
    same_line(ctx, (a + b) * k, a * k + b * k, "(a + b) * k")
    same_line(ctx, (a * k) / k, a, "a * k / k")
    same_line(ctx, a * 2, a + a, "a * 2")
    same_line(ctx, a * k - a, a * core.asfloat(k - 1), "a * k - a")
    same_line(ctx, -(-a), a, "-(-a)")
    if c["struct"] != "flat":
        x = a.set_child("z", d.flatten()).drop_child("z")
        same_line(ctx, x, a, "child added and removed")
    if c["kind"] == "COMPLETE" and c["struct"] == "flat":
        same_line(ctx, a.volume | a.price, a, "volume | price")
        same_line(ctx, a.volume | a.revenue, a, "volume | revenue")
        same_line(ctx, a.revenue | a.price, a, "revenue | price")
        same_line(ctx, a.volume * a.price, a.revenue, "volume * price")
        same_line(ctx, a.revenue / a.volume, a.price, "revenue / volume")


def cfgs4(tier):
    out = []
    for ix in IX:
        for j, (k, s) in enumerate(KS):
            c = dict(ix=ix, kind=k, struct=s)
            x = IX[ix]
            if x["up"] and (s == "flat" or (x["n"] < 5 and k != "COMPLETE")) and (tier == "thorough" or j % 2 == len(ix) % 2):
                out.append(c)
    return out


@harness("V23", cfgs4)
def freqs(ctx, c):
    """changing the frequency: can be undone; in two steps; of the product and of the factors"""
    o = Ops(ctx, c)
    x = o.x
    a = mk(ctx, "a", c, x, 20)
    up = a.asfreq(x["up"])
    same_line(ctx, up.asfreq(x["freq"]), a, "there and back")
    if x["down"]:
        same_line(ctx, up.asfreq(x["down"]), a.asfreq(x["down"]), "via shorter frequency")
    if c["kind"] == "COMPLETE":
        same_line(ctx, up.volume | up.price, up, "volume | price")
        same_line(ctx, a.price.asfreq(x["up"]) | a.volume.asfreq(x["up"]), up, "components")
