from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V08",
     bounds="nested lines with 1-4 children, up to 3 levels, 1-25 periods, children with equal or partly overlapping periods; all kinds; symbolic values in [-1000, 1000]; complete children: every zero / non-zero volume pattern for 1 period",
     outside="more children or levels; NaN values; float rounding")

STRUCTS = ["a", "a,b", "ab,b,a,aab", "a(x,y),b", "a(x(u,v),y),b(a)"]


def cfgs(tier):
    out = []
    for i, ix in enumerate([MS2, D3B6, QF2, YS2, H23, H24]):
        for j, kind in enumerate(AVAIL):
            for k, st in enumerate(STRUCTS):
                if ix["n"] > 4 and k > 1:
                    continue
                if tier == "thorough" or (i + j + k) % 3 == 0:
                    out.append(dict(ix, kind=kind, struct=st))
    return out


@harness("V08", cfgs, prio=1)
def aggregate(ctx, c):
    """the parent's values are the sums of the children's (price of complete line: revenue / volume)"""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1 if c["kind"] == "COMPLETE" else -1000)
    check_line(ctx, x, rx, "nested")
    check_line(ctx, x.flatten(), rx.flatten(), "flatten")
    ctx.check(len(x) == len(rx.children) and list(x) == list(rx.children), "children in order of creation")
    for k in rx.children:
        check_line(ctx, x[k], rx.children[k], f"[{k}]")
        check_line(ctx, getattr(x, k), rx.children[k], f".{k}")
    ctx.check(raises(lambda: x["nope"], KeyError), "unknown child: KeyError")


@harness("V08", lambda t: prod([dict(MS2, n=1), dict(D2, n=1)], [dict(struct="a,b", how="w"), dict(struct="a,b", how="q"), dict(struct="a(x,y),b", how="q")]))
def zero_volumes(ctx, c):
    """complete children: any zero pattern of the volumes; revenues and volumes always add up"""
    x, rx = mkline(ctx, "x", "COMPLETE", mkix(c), c["struct"], c["how"])
    check_line(ctx, x, rx, "nested")
    check_line(ctx, x.flatten(), rx.flatten(), "flatten")


OVER = [
    [("2024-01-01", 3), ("2024-02-01", 3)],
    [("2024-01-01", 4), ("2024-02-01", 1), ("2023-12-01", 3)],
    [("2024-03-01", 2), ("2024-01-01", 4)],
]


@harness("V08", lambda t: [dict(kind=k, over=o, tz=tz, form=f) for i, k in enumerate(AVAIL) for o in range(3) for tz in (None, B) for f in ("lines", "data") if t == "thorough" or (i + o + (f == "data")) % 2 == 0])
def overlap(ctx, c):
    """only the periods common to all children are kept"""
    ch, rf = {}, {}
    ixs = [mkix(dict(freq="MS", start=s, n=n, tz=c["tz"])) for s, n in OVER[c["over"]]]
    keep = [x for x in ixs[0].lefts if all(x in i.lefts for i in ixs)]
    for nm, ix in zip("abc", ixs):
        l, r = mkline(ctx, nm, c["kind"], ix, "flat", lo=1)
        ch[nm] = l if c["form"] == "lines" else {k: l.df[k] for k in ("w", "p") if k in l.df} if c["kind"] == "COMPLETE" else l.df[AVAIL[c["kind"]][-1]]
        rf[nm] = r.take([ix.lefts.index(x) for x in keep])
    check_line(ctx, pf.PfLine(ch), Ref.nested(rf), "nested")


@harness("V08", lambda t: prod([MS2, D3B6, H24][:: 1], opts("kind", *AVAIL), opts("struct", "a,b", "ab,b,a", "a(x,y),b,ba")))
def set_drop(ctx, c):
    """setting / replacing / dropping a child gives a new line, and leaves the original alone"""
    kw = dict(lo=1) if c["kind"] == "COMPLETE" else {}
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], **kw)
    n, rn = mkline(ctx, "n", c["kind"], mkix(c), "flat", **kw)
    ch = rx.children
    check_line(ctx, x.set_child("new", n), Ref.nested(dict(ch, new=rn)), "set new")
    check_line(ctx, x.set_child("a", n), Ref.nested(dict(ch, a=rn)), "replace")
    check_line(ctx, x.drop_child("a"), Ref.nested({k: v for k, v in ch.items() if k != "a"}), "drop")
    check_line(ctx, x, rx, "original")
    y = x
    for nm in list(x)[1:]:
        y = y.drop_child(nm)
    check_line(ctx, y, Ref.nested({list(x)[0]: ch[list(x)[0]]}), "all but one dropped")
    ctx.check(raises(lambda: y.drop_child(list(x)[0])), "cannot drop last child")
    ctx.check(raises(lambda: x.drop_child("zz")), "cannot drop unknown child")
    for nm in "wqpr":
        ctx.check(raises(lambda: x.set_child(nm, n)), "reserved name rejected")


@harness("V08", lambda t: prod([MS3], opts("kind", *AVAIL)))
def set_partial(ctx, c):
    """new child that covers only part: only the common periods are kept, for all children"""
    kw = dict(lo=1)
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), "a,b(y,z)", **kw)
    n, rn = mkline(ctx, "n", c["kind"], mkix(dict(c, start="2024-03-01", n=3)), "flat", **kw)
    exp = {k: v.take([1, 2]) for k, v in rx.children.items()}
    check_line(ctx, x.set_child("new", n), Ref.nested(dict(exp, new=rn.take([0, 1]))), "set new")
    m, rm = mkline(ctx, "m", c["kind"], mkix(dict(c, start="2025-03-01", n=3)), "flat", **kw)
    ctx.check(raises(lambda: x.set_child("m", m)), "no overlap rejected")


@harness("V08", lambda t: [dict(k1=a, k2=b) for a in AVAIL for b in AVAIL if a != b])
def rejected(ctx, c):
    ix = mkix(MS2)
    x, _ = mkline(ctx, "x", c["k1"], ix, "flat", lo=1)
    y, _ = mkline(ctx, "y", c["k2"], ix, "flat", lo=1)
    z, _ = mkline(ctx, "z", c["k1"], mkix(dict(MS2, start="2025-01-01")), "flat", lo=1)
    d, _ = mkline(ctx, "d", c["k1"], mkix(dict(freq="D", start="2024-01-01", n=2)), "flat", lo=1)
    t, _ = mkline(ctx, "t", c["k1"], mkix(dict(MS2, tz=B)), "flat", lo=1)
    for lab, o in (("kind", y), ("no overlap", z), ("frequency", d), ("time zone", t)):
        ctx.check(raises(lambda: pf.PfLine({"a": x, "b": o})), f"{lab} rejected")
        ctx.check(raises(lambda: pf.PfLine({"a": x}).set_child("b", o)), f"set_child: {lab} rejected")
    ctx.check(raises(lambda: pf.PfLine({"a": x, "w": x})), "reserved name rejected")
    ctx.check(raises(lambda: pf.PfLine({})), "no children rejected")
    ctx.check(raises(lambda: pf.PfLine({1: x})), "non-string name rejected")


def creators_cfg(tier):
    return prod([dict(MS3, n=1), D2], opts("kind", *AVAIL), opts("struct", "flat", "a,b", "a(x,y),b"))


@harness("V08", creators_cfg)
def creators(ctx, c):
    """building a line from a line: as-is, flattened, or refused; the data of the children gives the same line"""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1)
    check_line(ctx, pf.PfLine(x), rx, "PfLine(line)")
    check_line(ctx, pf.create.pfline(x), rx, "create.pfline(line)")
    check_line(ctx, pf.create.flatpfline(x), rx.flatten(), "create.flatpfline(line)")
    if c["struct"] == "flat":
        ctx.check(raises(lambda: pf.create.nestedpfline(x), TypeError), "no nested line from flat line")
        return
    check_line(ctx, pf.create.nestedpfline(x), rx, "create.nestedpfline(line)")

    def as_dict(l):
        if l.structure is pf.Structure.FLAT:
            return {k: l.df[k] for k in AVAIL[c["kind"]] if k in l.df}
        return {k: as_dict(v) for k, v in l.items()}

    check_line(ctx, pf.PfLine(as_dict(x)), rx, "from nested dictionary")
    check_line(ctx, pf.create.nestedpfline(as_dict(x)), rx, "create.nestedpfline(dictionary)")
    ctx.check(raises(lambda: pf.create.flatpfline(as_dict(x)), (KeyError, ValueError, TypeError)), "no flat line from data of children")
    if c["struct"] == "a,b":
        df = pd.DataFrame({(k, col): v.df[col] for k, v in x.items() for col in AVAIL[c["kind"]]})
        check_line(ctx, pf.PfLine(df), rx, "from dataframe with children as column level")
