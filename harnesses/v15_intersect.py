from harnesses.v09_pfstate import state
from symx.hl import *
from symx.oracle import rank, to_wall
from symx.runner import harness, meta
from symx.shapes import *

meta("V15",
     bounds="intersection of 1-3 series / dataframes / portfolio lines (flat, nested) / portfolio states with 1-100 periods; equal, partial, touching and no overlap; two indices of 1-14 periods with any (symbolic) start in 2019-2024; different frequency, time zone (incl. DST days) and / or start-of-day, with and without permission to ignore the difference; symbolic values in [-1000, 1000]; time zones of the southern hemisphere (also with a half-hour change); histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="(quarter)hourly objects on DST days if the time zone is ignored; quarters and years with anchors that do not fit; longer indices")

NO, FR, TZ_, SOD = {}, dict(ignore_freq=True), dict(ignore_tz=True), dict(ignore_start_of_day=True)


def D(start, n, freq="D", tz=None):
    return dict(freq=freq, start=start, n=n, tz=tz)


CASES = [  # (indices, flags, valid)
    ([D("2024-03-30", 3, tz=B), D("2024-03-31", 3, tz=B)], NO, True),
    ([D("2024-03-30", 3, tz=B), D("2024-03-31", 3, tz=B)], dict(FR, **TZ_, **SOD), True),
    ([D("2024-01-01", 4, "MS"), D("2024-03-01", 4, "MS"), D("2024-02-01", 5, "MS")], NO, True),
    ([D("2024-01-01", 4, "MS"), D("2024-03-01", 4, "MS")], SOD, True),
    ([D("2024-01-01", 2, "MS"), D("2024-03-01", 4, "MS")], NO, True),  # touching
    ([D("2024-01-01", 2, "MS", B), D("2025-03-01", 4, "MS", B)], FR, True),  # no overlap
    ([D("2024-02-28", 48, "h"), D("2024-02-29", 48, "h")], NO, True),
    ([D("2024-03-30", 47, "h", B), D("2024-03-31", 47, "h", B)], NO, True),
    ([D("2024-03-30", 47, "h", B), D("2024-03-31", 2, "D", B)], FR, True),
    ([D("2024-10-26", 49, "h", B), D("2024-10-27", 100, "15min", B)], FR, True),
    ([D("2024-01-30", 35), D("2024-01-01", 3, "MS")], FR, True),
    ([D("2024-01-30 06:00", 35), D("2024-02-01", 3, "MS")], FR, False),
    ([D("2024-01-30 06:00", 35, tz=B), D("2024-02-01", 3, "MS", B)], dict(FR, **SOD), True),
    ([D("2024-01-30 06:00", 35, tz=B), D("2024-02-01", 3, "MS")], dict(FR, **SOD, **TZ_), True),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30", 4)], TZ_, True),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30", 4, tz=K)], TZ_, True),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30", 4, tz=K)], NO, False),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30 06:00", 4, tz=B)], SOD, True),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30 06:00", 4, tz=B)], NO, False),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30 06:00", 4)], dict(SOD, **TZ_), True),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30 06:00", 4)], SOD, False),
    ([D("2024-03-29", 4, tz=B), D("2024-03-30 06:00", 4)], TZ_, False),
    ([D("2023-11-01", 7, "MS"), D("2024-01-01", 3, "QS"), D("2023-01-01", 2, "YS")], FR, True),
    ([D("2023-11-01", 20, "MS"), D("2023-10-01", 8, "QS"), D("2023-01-01", 3, "YS")], FR, True),
    ([D("2023-11-01", 7, "MS", B), D("2023-12-30", 70, tz=B)], NO, False),
    ([D("2023-11-01", 4, "QS-FEB"), D("2024-02-01", 2, "QS-FEB")], NO, True),
    ([D("2023-11-01", 4, "QS-FEB"), D("2023-12-01", 12, "MS")], FR, True),
    ([D("2024-02-28 06:00", 48, "h"), D("2024-02-29", 48, "h")], SOD, False),  # hours of other delivery days
    ([D("2024-02-28 06:00", 48, "h"), D("2024-02-29 06:00", 2)], FR, True),
    ([D("2024-02-28", 48, "h", B), D("2024-02-29", 48, "h")], TZ_, True),
    ([D("2023-12-01", 12, "MS"), D("2023-11-01", 4, "QS-FEB")], FR, True),
    ([D("2024-04-01", 3, "YS-APR"), D("2024-01-01", 12, "QS")], FR, True),
    ([D("2024-01-01", 12, "QS", B), D("2023-04-01", 3, "YS-APR", B), D("2024-06-01", 20, "MS", B)], FR, True),
    ([D("2024-01-01", 8, "QS"), D("2024-02-01", 8, "QS-FEB")], NO, False),
    ([D("2024-03-29", 4)], FR, True),
    ([D("2024-04-06", 49, "h", S), D("2024-04-07", 3, "D", S)], FR, True),
    ([D("2024-10-05 06:00", 4, tz=S), D("2024-10-05", 4, tz=B)], dict(TZ_, **SOD), True),
    ([D("2024-02-28", 48, "h", B), D("2024-01-29", 48, "D")], dict(TZ_, **FR), True),
]


def ref(ixs, flags):
    """positions of each index that are kept"""
    longest = max((ix.freq for ix in ixs), key=rank)
    tz = flags.get("ignore_tz") and len({ix.tz for ix in ixs}) > 1
    sod = flags.get("ignore_start_of_day") and len({to_wall(ix.lefts[0], ix.tz).time() for ix in ixs}) > 1
    out = []
    for ix in ixs:
        if ix.freq == longest:
            m = {x: [k] for k, x in enumerate(ix.lefts)}
        else:
            six, groups = ix.asfreq(longest)
            m = {x: [k for k, _ in g] for x, g in zip(six.lefts, groups)}
        if tz or sod:
            m = {to_wall(x, ix.tz): v for x, v in m.items()}
        if sod:
            m = {x.date(): v for x, v in m.items()}
        out.append(m)
    common = set.intersection(*[set(m) for m in out])
    return [sorted(k for x in common for k in m[x]) for m in out]


FORM = ["series", "unit", "frame", "VOLUME", "PRICE", "nested", "state"]


def cfgs(tier):
    out = []
    for i, (ixs, fl, ok) in enumerate(CASES):
        for j in range(len(FORM)):
            if FORM[j] == "state" and (sum(x["n"] for x in ixs) > 60):
                continue
            out.append(dict(ixs=ixs, flags=fl, ok=ok, form=j))
    # every relative position
    for k, (f, s0) in enumerate((("MS", "2024-{:02d}-01"), ("D", "2024-03-{:02d} 06:00"))):
        for n, m in ((3, 2), (1, 4), (2, 2)) if tier == "quick" else [(n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]:
            for a in range(1, 10):
                z = [D(s0.format(5 if f == "MS" else 27), n, f, B), D(s0.format(a if f == "MS" else a + 22), m, f, B)]
                out.append(dict(ixs=z, flags={}, ok=True, form=(a + n + m) % 7))
    return out


@harness("V15", cfgs, max_paths=40)
def intersection(ctx, c):
    ixs = [mkix(x) for x in c["ixs"]]
    objs, before = [], []
    for k, ix in enumerate(ixs):
        form = FORM[(c["form"] + 3 * k) % len(FORM)] if c["form"] % 2 else FORM[c["form"]]
        i = ix.pd()
        if form in ("series", "unit", "frame"):
            v = reals(ctx, f"s{k}_", len(ix))
            s = ser(v, i, "nm", "MW" if form == "unit" else None)
            objs.append(pd.DataFrame({"a": s, "b": range(len(ix))}) if form == "frame" else s)
            before.append((form, v))
        elif form == "state":
            pfs, *r = state(ctx, dict(so="flat", ss="flat"), ix, f"t{k}_")
            objs.append(pfs)
            before.append((form, r))
        else:
            x, r = mkline(ctx, f"l{k}_", "VOLUME" if form == "nested" else form, ix, "nested" if form == "nested" else "flat", lo=1)
            objs.append(x)
            before.append((form, r))
    fn = lambda: pf.intersection(*objs, **c["flags"])
    if not c["ok"]:
        ctx.check(raises(fn), "refused")
        return
    keep = ref(ixs, c["flags"])
    line = any(f in ("VOLUME", "PRICE", "nested", "state") for f, _ in before)
    if not any(keep):
        if line:  # portfolio lines cannot be empty
            ctx.check(raises(fn), "empty portfolio line refused")
            return
        for o, ix in zip(fn(), ixs):
            ctx.check(len(o) == 0, "empty")
            i = ix.pd()
            ctx.check(o.index.freq == i.freq and str(o.index.tz) == str(i.tz), "empty: own frequency and time zone")
        return
    got = fn()
    ctx.check(len(got) == len(objs), "number of objects")
    for k, (g, (form, r), pos, ix) in enumerate(zip(got, before, keep, ixs)):
        six = ix.sub(pos)
        if form in ("series", "unit"):
            check_series(ctx, g, six, [r[p] for p in pos], f"object {k}", "MW" if form == "unit" else None)
        elif form == "frame":
            check_series(ctx, g["a"], six, [r[p] for p in pos], f"object {k}")
            ctx.check(list(g["b"]) == pos, f"object {k} other column")
        elif form == "state":
            for nm, a, b in zip(("offtake", "unsourced price", "sourced"), (g.offtakevolume, g.unsourcedprice, g.sourced), r):
                check_line(ctx, a, b.take(pos), f"object {k} {nm}")
        else:
            check_line(ctx, g, r.take(pos), f"object {k}")
        if form in ("series", "unit"):
            same_objects(ctx, vals(objs[k]), r, f"input {k} unchanged")
        ctx.check(len(objs[k].index) == len(ix), f"input {k} unchanged")


def icfgs(tier):
    out = []
    for i, (ixs, fl, ok) in enumerate(CASES):
        for e in range(len(ixs) + 1):  # position of empty index
            out.append(dict(ixs=ixs, flags=fl, ok=ok, empty=e))
    return out if tier == "thorough" else out[::2]


@harness("V15", icfgs)
def indices(ctx, c):
    """indices themselves; also with an empty one; selecting the values of a frame with them"""
    ixs = [mkix(x) for x in c["ixs"]]
    ii = [ix.pd().rename(f"n{k}") for k, ix in enumerate(ixs)]
    e = c["empty"]
    ti = pf.tools.intersect
    v = [reals(ctx, f"s{k}_", len(ix)) for k, ix in enumerate(ixs)]
    same = len({i.freq for i in ii}) == 1 and len({str(i.tz) for i in ii}) == 1
    if e < len(ii):
        ii[e] = ii[e][:0]
        ok = c["ok"] or "ignore_freq" in c["flags"] and "ignore_tz" in c["flags"]
        diff_sod = len({to_wall(ix.lefts[0], ix.tz).time() for ix in ixs}) > 1
        if not c["ok"] and diff_sod:
            return  # an empty index has no start of day
        keep = [[] for _ in ii] if len(ii) > 1 else [[]]
    else:
        ok = c["ok"]
        keep = ref(ixs, c["flags"]) if ok else None
    if not ok:
        ctx.check(raises(lambda: ti.indices_flex(*ii, **c["flags"])), "refused")
        if same:
            return
    else:
        got = ti.indices_flex(*ii, **c["flags"])
        ctx.check(len(got) == len(ii), "number of indices")
        for k, (g, i, pos) in enumerate(zip(got, ii, keep)):
            lefts = [i[p] for p in pos]
            ctx.check(list(g) == lefts, f"timestamps {k}")
            ctx.check(g.freq == i.freq and str(g.tz) == str(i.tz) and g.name == i.name, f"properties of index {k}")
            if len(i):
                s = pd.Series(ser(v[k], i), i)
                for a, p in zip(vals(s.loc[g]) if len(g) else [], pos):
                    ctx.eq(a, v[k][p], f"values {k}")
    # strict
    if not c["flags"]:
        if not same or not c["ok"]:
            ctx.check(raises(lambda: ti.indices(*ii)) or e < len(ii), "refused (strict)")
        else:
            g = ti.indices(*ii)
            ctx.check(list(g) == [ii[0][p] for p in keep[0]], "timestamps (strict)")
            ctx.check(g.freq == ii[0].freq and str(g.tz) == str(ii[0].tz) and g.name == ii[0].name, "properties (strict)")


def scfgs(tier):
    out = []
    for tz in (None, B):
        for f, n, m in (("D", 2, 3), ("MS", 3, 2), ("QS-FEB", 2, 2), ("YS", 2, 2), ("h", 3, 2)):
            for flags, sods in ((NO, ("06:00", "06:00")), (SOD, ("00:00", "06:00")), (dict(FR, **TZ_, **SOD), ("06:00", "00:00"))):
                if f == "h" and sods[0] != sods[1]:
                    continue
                out.append(dict(fs=(f, f), ns=(n, m), tzs=(tz, tz), sods=sods, flags=flags))
        for fs, ns in ((("MS", "QS"), (5, 2)), (("QS-FEB", "MS"), (2, 4)), (("QS", "YS-APR"), (6, 1)), (("YS", "QS-APR"), (1, 6)), (("MS", "YS-FEB"), (14, 1))):
            for flags, sods in ((FR, ("00:00", "00:00")), (dict(FR, **SOD), ("06:00", "00:00"))):
                out.append(dict(fs=fs, ns=ns, tzs=(tz, tz), sods=sods, flags=flags))
    for tzs in ((None, B), (B, None), ("UTC", B)):
        for flags, sods in ((TZ_, ("06:00", "06:00")), (dict(TZ_, **SOD), ("00:00", "06:00"))):
            out.append(dict(fs=("D", "D"), ns=(2, 3), tzs=tzs, sods=sods, flags=flags))
            out.append(dict(fs=("MS", "MS"), ns=(3, 2), tzs=tzs, sods=sods, flags=flags))
        out.append(dict(fs=("MS", "QS"), ns=(5, 2), tzs=tzs, sods=("06:00", "00:00"), flags=dict(FR, **TZ_, **SOD)))
    return out if tier == "thorough" else out[::2]


@harness("V15", scfgs, engine="T", budget=60, max_paths=300)
def any_start(ctx, c):
    """indices with any start (so any relative position)"""
    import datetime as dt

    from symx import tl

    ii = []
    for k, (f, n, tz, s) in enumerate(zip(c["fs"], c["ns"], c["tzs"], c["sods"])):
        ii.append(tl.index(ctx, f"i{k}", f, n, tz, (2019, 2024), dt.time.fromisoformat(s)))
    if c["fs"][0] == "h":  # same start of day
        ctx.assume(tl.lift(ii[0][0]).h == tl.lift(ii[1][0]).h)
    got = pf.tools.intersect.indices_flex(*ii, **c["flags"])
    ctx.check(len(got) == 2, "two indices")
    wall, day = c["tzs"][0] != c["tzs"][1], c["sods"][0] != c["sods"][1]

    def key(x):
        s = tl.lift(x)
        return (s.y, s.m, s.d) if day else (s.y, s.m, s.d, s.h, s.r) if wall else s.utc()

    # full long periods of each index, as pair of keys
    j = 0 if rank(c["fs"][0]) > rank(c["fs"][1]) else 1
    long = [(key(x), key(tl.ref_plus(x, c["fs"][j], 1))) for x in ii[j]]
    o = ii[1 - j]
    if c["fs"][0] == c["fs"][1]:
        full = [tl.Or(*(tl.And(*(p == q for p, q in zip(a, key(x)))) for x in o)) for a, b in long]
    else:
        first, end = key(o[0]), key(tl.ref_plus(o[-1], c["fs"][1 - j], 1))
        full = [tl.And(tl.lex(first, a, False), tl.lex(b, end, False)) for a, b in long]
    for k, (g, i, f) in enumerate(zip(got, ii, c["fs"])):
        keep = []
        for x in i:
            z = key(x)
            keep.append(tl.simp(tl.Or(*(tl.And(u, tl.lex(a, z, False), tl.lex(z, b, True)) for u, (a, b) in zip(full, long)))))
        tl.outs(ctx, f"result {k}", g)
        kept = [x for x, w in zip(i, keep) if ctx.branch(w)]
        ctx.check(len(g) == len(kept), f"number of periods {k}")
        for p, (x, y) in enumerate(zip(g, kept)):
            tl.check(ctx, tl.same(x, y), f"period {k} {p}")
        ctx.check(g.freq == i.freq, f"frequency {k}")
        ctx.check(str(g.tz) == str(i.tz), f"time zone {k}")
    if not wall and not day and c["fs"][0] == c["fs"][1]:
        g = pf.tools.intersect.indices(*ii)
        tl.outs(ctx, "strict", g)
        ctx.check(len(g) == len(kept), "number of periods (strict)")
        for p, (x, y) in enumerate(zip(g, kept)):
            tl.check(ctx, tl.same(x, y), f"period (strict) {p}")


@harness("V15", lambda t: [dict(base=list(b), flags=fl) for b in (("D", "2024-03-30", 4), ("D", "2024-02-28", 4), ("MS", "2024-02-01", 3), ("QS", "2024-01-01", 3)) for fl in ({}, FR, TZ_, SOD)], max_paths=20)
def history(ctx, c):
    """the result does not depend on which objects were intersected before"""
    cs = alike(*c["base"])
    for k, ic in enumerate(cs + cs[::-1]):
        a, b = mkix(dict(ic, n=ic["n"] - 1)), mkix(ic).sub(range(1, ic["n"]))
        va, vb = reals(ctx, f"a{k}_", len(a)), reals(ctx, f"b{k}_", len(b))
        keep = ref([a, b], c["flags"])
        got = pf.intersection(ser(va, a.pd()), ser(vb, b.pd()), **c["flags"])
        for g, ix, v, pos, nm in zip(got, (a, b), (va, vb), keep, "ab"):
            check_series(ctx, g, ix.sub(pos), [v[p] for p in pos], f"{nm} {k}")
