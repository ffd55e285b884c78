from harnesses.v09_pfstate import state
from symx.hl import *
from symx.oracle import stamp, to_wall
from symx.runner import harness, meta
from symx.shapes import *

meta("V14",
     bounds="lines of all kinds, flat / nested / nested in nested, over 1-25 periods (quarter-hourly to yearly, DST days, start-of-day 06:00); every contiguous selection of a 4-period line (for longer ones: a few), with start and end on or between boundaries, as timestamps, texts or true/false values; every way to cut a 4-period line in 2 or 3 parts, in every order; also for portfolio states; symbolic values in [-1000, 1000]",
     outside="other selectors; longer indices; float rounding")

IX = [
    dict(freq="MS", start="2024-01-01", n=4, tz=B),
    dict(freq="D", start="2024-03-30 06:00", n=4, tz=B),
    dict(freq="QS-FEB", start="2023-11-01", n=4, tz=None),
    dict(freq="YS", start="2021-01-01", n=4, tz=K),
    dict(freq="h", start="2024-03-30", n=47, tz=B),
    dict(freq="h", start="2024-10-27 06:00", n=48, tz=None),
    dict(freq="15min", start="2024-10-27", n=100, tz=B),
    dict(freq="D", start="2024-11-01 05:00", n=4, tz=N),
    dict(freq="QS-MAR", start="2023-12-01 23:00", n=4, tz=U),
]
STRUCT = ["flat", "nested", "deep"]
KINDS = ["VOLUME", "PRICE", "REVENUE", "COMPLETE"]


def cfgs(tier):
    out = []
    for i, c in enumerate(IX):
        for j, k in enumerate(KINDS):
            for l, s in enumerate(STRUCT):
                if tier == "thorough" or (i + j + l) % 4 == 0 or (i < 2 and l == j % 3):
                    out.append(dict(c, kind=k, struct=s))
    return out


def line(ctx, c):
    ix = mkix(c)
    if len(ix) > 10:  # few symbols
        raise AssertionError
    return ix, *mkline(ctx, "x", c["kind"], ix, c["struct"], "q", lo=1)


def build(ctx, c, **kw):
    ix = mkix(c)
    return (ix, *mkline(ctx, "x", c["kind"], ix, c["struct"], "q", **(kw or dict(lo=1))))


def cuts(n):
    """allowed (start, stop) for the number of periods; whole days for (quarter)hours"""
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


def bounds(c, ix):
    """positions at which a (valid) line may start or end"""
    if ix.freq in ("h", "15min"):
        return [k for k in range(len(ix) + 1) if k == len(ix) or to_wall(ix.lefts[k], ix.tz).time() == ix.sod]
    return list(range(len(ix) + 1))


@harness("V14", cfgs, prio=1, max_paths=60)
def select(ctx, c):
    ix, x, ref = build(ctx, c)
    bs = bounds(c, ix)
    st = [stamp(t, ix.tz) for t in ix.lefts] + [stamp(ix.rights[-1], ix.tz)]
    eps = pd.Timedelta(minutes=1)
    for a in bs:
        for b in bs:
            if a >= b or (len(bs) > 5 and a and b - a > 2):
                continue
            exp = ref.take(range(a, b))
            check_line(ctx, x.slice[st[a] : st[b]], exp, f"slice[{a}:{b}]")
            check_line(ctx, x.slice[st[a] - eps : st[b] - eps], exp, f"slice just before [{a}:{b}]")
            check_line(ctx, x.loc[st[a] : st[b] - eps], exp, f"loc[{a}:{b}]")
            if b - a == 1 and a + 1 < len(st) - 1:
                check_line(ctx, x.loc[st[a] : st[b - 1]], exp, f"loc[{a}:{b - 1}] includes end")
            mask = [a <= k < b for k in range(len(ix))]
            check_line(ctx, x.loc[mask], exp, f"loc[mask {a}:{b}]")
            if a == 0:
                check_line(ctx, x.slice[: st[b]], exp, f"slice[:{b}]")
            if b == len(ix):
                check_line(ctx, x.slice[st[a] :], exp, f"slice[{a}:]")
                check_line(ctx, x.loc[st[a] :], exp, f"loc[{a}:]")
    check_line(ctx, x.slice[:], ref, "slice[:]")
    check_line(ctx, x, ref, "original")
    if ix.freq not in ("h", "15min"):
        ctx.check(raises(lambda: x.loc[[k in (0, 2) for k in range(len(ix))]]), "selection with a gap refused")
        y = to_wall(ix.lefts[1], ix.tz)
        if ix.freq in ("MS", "YS"):
            txt = y.strftime("%Y-%m" if ix.freq == "MS" else "%Y")
            check_line(ctx, x.loc[txt:], ref.take(range(1, len(ix))), "loc[text:]")
            check_line(ctx, x.slice[:txt], ref.take(range(1)), "slice[:text]")
            check_line(ctx, x.loc[txt:txt], ref.take([1]), "loc[text:text]")
            check_line(ctx, x.loc[txt], ref.take([1]), "loc[text]")
    # days, months and years as text
    wall = [to_wall(t, ix.tz) for t in ix.lefts]
    n = len(ix)
    for fmt in ("%Y-%m-%d", "%Y-%m", "%Y"):
        for a in bs[1:-1]:
            txt = f"{wall[a]:{fmt}}"
            first = next(k for k in range(n) if wall[k].strftime(fmt) == txt)
            last = max(k for k in range(n) if wall[k].strftime(fmt) == txt) + 1
            ok = lambda b, e: wall[b].time() == to_wall(ix.rights[e - 1], ix.tz).time()  # full days
            for lab, f, (b, e) in (("slice[:text]", lambda: x.slice[:txt], (0, first)), ("slice[text:]", lambda: x.slice[txt:], (first, n)),
                                   ("loc[text:]", lambda: x.loc[txt:], (first, n)), ("loc[:text]", lambda: x.loc[:txt], (0, last)), ("loc[text:text]", lambda: x.loc[txt:txt], (first, last))):
                if b == e or not ok(b, e):
                    ctx.check(raises(f), f"{lab} {txt}: not full days, or empty")
                else:
                    check_line(ctx, f(), ref.take(range(b, e)), f"{lab} {txt}")


@harness("V14", cfgs, prio=1, max_paths=60)
def concat(ctx, c):
    """cutting a line in parts and concatenating them in any order gives the line; gaps and overlaps are refused"""
    ix, x, ref = build(ctx, c)
    bs = bounds(c, ix)
    n = len(ix)
    part = lambda a, b: x.loc[[a <= k < b for k in range(n)]]
    for m in bs[1:-1]:
        p, q = part(0, m), part(m, n)
        check_line(ctx, pf.concat([p, q]), ref, f"two parts at {m}")
        check_line(ctx, pf.concat([q, p]), ref, f"two parts at {m}, swapped")
        check_line(ctx, p, ref.take(range(m)), "part")
    for m in bs[1:-1]:
        for o in bs[1:-1]:
            if m < o:
                P = [part(0, m), part(m, o), part(o, n)]
                for perm in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
                    check_line(ctx, pf.concat([P[k] for k in perm]), ref, f"three parts at {m},{o} {perm}")
                ctx.check(raises(lambda: pf.concat([P[0], P[2]])), f"gap {m}-{o} refused")
                ctx.check(raises(lambda: pf.concat([part(0, o), part(m, n)])), f"overlap {m}-{o} refused")
                ctx.check(raises(lambda: pf.concat([P[0], P[1], P[0]])), "repetition refused")
    ctx.check(raises(lambda: pf.concat([x, x])), "duplicate refused")


@harness("V14", lambda t: [dict(IX[i], kind=k) for i in (0, 1) for k in KINDS], max_paths=60)
def concat_parts_with_other_values(ctx, c):
    """parts with independent values; incompatible parts are refused"""
    ix = mkix(c)
    i1, i2 = ix.sub([0, 1]), ix.sub([2, 3])
    a, ra = mkline(ctx, "a", c["kind"], i1, "x,y(z)", "q", lo=1)
    b, rb = mkline(ctx, "b", c["kind"], i2, "y(z),x", "q", lo=1)
    got = pf.concat([b, a])

    def join(p, q):
        if p.flat:
            g = lambda l, m: None if l is None else l + m
            return Ref(p.kind, ix, g(p.q, q.q), g(p.r, q.r), g(p.p, q.p))
        return Ref.nested({k: join(p.children[k], q.children[k]) for k in p.children})

    check_line(ctx, got, join(ra, rb), "concat")
    k2 = "PRICE" if c["kind"] != "PRICE" else "VOLUME"
    sod = dict(c, start="2024-03-01 09:00", n=2) if c["freq"] == "MS" else dict(c, start="2024-04-01 09:00", n=2)
    y = lambda nm, kind, i, s="x,y(z)": mkline(ctx, nm, kind, i, s, "q", lo=1)[0]
    bad = {
        "kind": y("k", k2, i2),
        "flat": y("f", c["kind"], i2, "flat"),
        "children": y("c", c["kind"], i2, "x,v(z)"),
        "fewer children": y("d", c["kind"], i2, "x"),
        "start-of-day": y("s", c["kind"], mkix(sod)),
        "time zone": y("t", c["kind"], mkix(dict(c, start="2024-03-01" if c["freq"] == "MS" else "2024-04-01 06:00", n=2, tz=None))),
        "frequency": y("g", c["kind"], mkix(dict(c, freq="QS", start="2024-04-01", n=2))),
    }
    for lab, z in bad.items():
        ctx.check(raises(lambda: pf.concat([a, z])), f"different {lab} refused")
        ctx.check(raises(lambda: pf.concat([z, a])), f"different {lab} refused, swapped")
        ctx.check(raises(lambda: pf.concat([a, b, z])), f"third part with different {lab} refused")
    ctx.check(raises(lambda: pf.concat([a])), "single part refused")
    ctx.check(raises(lambda: pf.concat([])), "no part refused")
    for z in (a.df, 3.0, a.index, None):
        ctx.check(raises(lambda: pf.concat([a, z])), f"{type(z).__name__} refused")
    v = lambda nm, kind, i: mkline(ctx, nm, kind, i, "flat", "q", lo=1)[0]
    st = pf.PfState(v("o", "VOLUME", i2), v("u", "PRICE", i2))
    ctx.check(raises(lambda: pf.concat([a, st])), "portfolio state among lines refused")
    ctx.check(raises(lambda: pf.concat([st, a])), "line among portfolio states refused")


@harness("V14", lambda t: [dict(IX[i], so=so, ss=ss) for i in ((0, 1) if t == "quick" else (0, 1, 2, 3)) for so, ss in (("flat", "flat"), ("nested", "nested"))], max_paths=40)
def states(ctx, c):
    """the same for portfolio states: select and concatenate"""
    got = state(ctx, c)
    pfs, refs = got[0], got[1:]
    parts = lambda s: (s.offtakevolume, s.unsourcedprice, s.sourced)
    n = len(pfs.index)
    mk = lambda a, b: [a <= k < b for k in range(n)]
    before = [snapshot(z) for z in parts(pfs)]
    for m in (1, 3):
        a, b = pfs.loc[mk(0, m)], pfs.loc[mk(m, n)]
        z = pf.concat([b, a])
        ctx.check(list(z.index) == list(pfs.index), "index")
        for nm, u, v in zip(("offtake", "unsourcedprice", "sourced"), before, parts(z)):
            same_objects(ctx, snapshot(v), u, f"{nm} cut at {m}")
        t = pfs.index[m]
        for nm, u, v in zip(("offtake", "unsourcedprice", "sourced"), parts(a), parts(pfs.slice[:t])):
            same_objects(ctx, snapshot(v), snapshot(u), f"{nm} slice {m}")
        for nm, u, v in zip(("offtake", "unsourcedprice", "sourced"), parts(pfs.loc[mk(m, n)]), parts(pfs.slice[t:])):
            same_objects(ctx, snapshot(v), snapshot(u), f"{nm} slice {m}:")
    ctx.check(raises(lambda: pf.concat([pfs.loc[mk(0, 1)], pfs.loc[mk(2, 4)]])), "gap refused")
    for nm, u, v in zip(("offtake", "unsourcedprice", "sourced"), before, parts(pfs)):
        same_objects(ctx, snapshot(v), u, f"{nm} unchanged")
