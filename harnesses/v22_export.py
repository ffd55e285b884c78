import contextlib

from harnesses.v09_pfstate import state
from symx.hl import *
from symx.oracle import to_wall
from symx.runner import harness, meta
from symx.shapes import *

meta("V22",
     bounds="lines of all kinds, flat / nested up to 3 levels (also: unequal depth), and portfolio states, over 1-25 periods incl. DST days; every choice of columns, every number of child levels, with and without units; the frames handed over to Excel and clipboard; symbolic values in [-1000, 1000]",
     outside="the Excel file and clipboard as written by pandas; float rounding")

KINDS = ["VOLUME", "PRICE", "REVENUE", "COMPLETE"]
STRUCT = ["flat", "a", "a,b", "a,b(x,y)", "a(x,y(k,l)),b"]
COLS = [None, "w", "wqpr", "rq", ["p"], ["q", "p", "w"], ("r", "w")]
IX = [
    dict(freq="MS", start="2024-01-01", n=2, tz=B),
    dict(freq="D", start="2024-03-30 06:00", n=2, tz=B),
    dict(freq="QS-FEB", start="2023-11-01", n=2, tz=None),
    dict(freq="h", start="2024-10-27", n=25, tz=B),
]


def expected(ref, cols, levels, path=()):
    """-> list of (path, col, Ref) in order"""
    out = [(path, c, ref) for c in (cols or "wqpr") if c in AVAIL[ref.kind]]
    if not ref.flat and levels != 0:
        for k, x in ref.children.items():
            out += expected(x, cols, levels - 1, path + (k,))
    return out


def check_df(ctx, df, exp, ix, units, label, freq=True):
    ctx.check(isinstance(df, pd.DataFrame), f"{label} is dataframe")
    if not check_index(ctx, df.index, ix, label, freq):
        return
    if not exp:
        ctx.check(df.shape[1] == 0, f"{label} no columns")
        return
    strip = lambda c: strip(c[:-1]) if isinstance(c, tuple) and c[-1] == "" else c if isinstance(c, tuple) else (c,)
    ok = [strip(c) for c in df.columns] == [p + (c,) for p, c, _ in exp]
    ctx.check(ok, f"{label} column names")
    if not ok:
        return
    for j, (p, col, ref) in enumerate(exp):
        s = df.iloc[:, j]
        lbl = f"{label} {p} {col}"
        pint = type(s.array).__name__ == "PintArray"
        ctx.check(pint == units, f"{lbl} unit")
        if pint and units:
            ctx.check(str(s.array.units) == str(pf.tools.unit.ureg.Unit(UNITS[col])), f"{lbl} standard unit")
        got = vals(s)
        for i, h in enumerate(ix.durs):
            lb = f"{lbl}[{i}]"
            if col == "w":
                ctx.eq(got[i] * h, ref.q[i], lb)
            elif col in "qr":
                ctx.eq(got[i], getattr(ref, col)[i], lb)
            elif ref.kind == "PRICE":
                ctx.eq(got[i], ref.p[i], lb)
            else:
                check_complete_price(ctx, got[i], ref.q[i], ref.r[i], lb)


def line(ctx, c, ix):
    # volumes that do not cancel
    kw = dict(lo=1) if c["kind"] == "COMPLETE" else {}
    return mkline(ctx, "a", c["kind"], ix, c["struct"], how="q", **kw)


def cfgs(tier):
    out = []
    for i, x in enumerate(IX):
        for j, k in enumerate(KINDS):
            for l, s in enumerate(STRUCT):
                if i == 3 and not (l < 2 and k != "COMPLETE"):
                    continue
                if tier == "thorough" or (i + j + l) % 2 == 0:
                    out.append(dict(x, kind=k, struct=s))
    return out


@harness("V22", cfgs)
def frames(ctx, c):
    ix = mkix(c)
    a, ref = line(ctx, c, ix)
    for cols in COLS:
        for units in (True, False):
            for lev in (None, -1, 0, 1, 2):
                if lev is not None and cols not in (None, "rq"):
                    continue
                exp = expected(ref, cols, -1 if lev is None else lev)
                kw = {} if lev is None else dict(childlevels=lev)
                check_df(ctx, a.dataframe(cols, units, **kw), exp, ix, units, f"{cols} units={units} levels={lev}")


@harness("V22", lambda t: [dict(x, so=so, ss=ss) for i, x in enumerate(IX) for j, (so, ss) in enumerate([("flat", "flat"), ("a,b", "flat"), ("flat", "a,b(x,y)"), ("flat", None)]) if (t == "thorough" or (i + j) % 2 == 0) and (i < 3 or j == 0)])
def states(ctx, c):
    ix = mkix(c)
    pfs, ro, rp, rs = state(ctx, c, ix)
    ru = Ref("COMPLETE", ix, q=[-(a + b) for a, b in zip(ro.q, rs.q)])
    ru.r = [a * b for a, b in zip(ru.q, rp.p)]
    total = Ref("COMPLETE", ix, q=[-a for a in ro.q], r=[a + b for a, b in zip(rs.r, ru.r)])
    for cols in (None, "w", "p", ["r", "q"]):
        for units in (True, False):
            exp = []
            for nm, r, lev in [("offtakevolume", ro, -1), ("pnl_cost", total, 0), ("sourced", rs, -1), ("unsourced", ru, -1)]:
                exp += [((nm,) + p, k, x) for p, k, x in expected(r, cols, lev)]
            check_df(ctx, pfs.dataframe(cols, has_units=units), exp, ix, units, f"{cols} units={units}")


@contextlib.contextmanager
def recording(name):
    """catch what is handed over to pandas for writing"""
    got = []
    old = getattr(pd.DataFrame, name)
    setattr(pd.DataFrame, name, lambda self, *a, **k: got.append((self, a, k)))
    try:
        yield got
    finally:
        setattr(pd.DataFrame, name, old)


@harness("V22", cfgs)
def output(ctx, c):
    """frames that are written to excel or copied to clipboard: local time, units as column level"""
    ix = mkix(c)
    a, ref = line(ctx, c, ix)
    naive = Ix(ix.freq, None, [to_wall(x, ix.tz) for x in ix.lefts])
    exp = expected(ref, None, -1)
    depth = max(len(p) for p, _, _ in exp) + 1
    for name in ("to_excel", "to_clipboard"):
        with recording(name) as got:
            if name == "to_excel":
                a.to_excel("file.xlsx", sheet_name="here")
            else:
                a.to_clipboard(excel=False)
        ctx.check(len(got) == 1, f"{name} calls")
        df, args, kw = got[0]
        if name == "to_excel":
            ctx.check(args == ("file.xlsx",) and kw == {"sheet_name": "here"}, "arguments are passed on")
        else:
            ctx.check(args == () and kw == {"excel": False}, "arguments are passed on")
        lefts = [t.to_pydatetime() for t in df.index]
        ctx.check(df.index.tz is None and lefts == naive.lefts, f"{name} local time")
        pad = lambda p, k: p + (k,) + ("",) * (depth - len(p) - 1)
        unit = lambda k: f"{pf.tools.unit.ureg.Unit(UNITS[k])}"
        ctx.check(list(df.columns) == [pad(p, k) + (unit(k),) for p, k, _ in exp], f"{name} column names and units")
        for j, (p, col, r) in enumerate(exp):
            s = df.iloc[:, j]
            got_ = vals(s)
            for i, h in enumerate(ix.durs):
                lb = f"{name} {p} {col}[{i}]"
                if col == "w":
                    ctx.eq(got_[i] * h, r.q[i], lb)
                elif col in "qr":
                    ctx.eq(got_[i], getattr(r, col)[i], lb)
                elif r.kind == "PRICE":
                    ctx.eq(got_[i], r.p[i], lb)
                else:
                    ctx.eq(got_[i] * r.q[i], r.r[i], lb)


@harness("V22", lambda t: [dict(x, kind=k, struct=s) for i, x in enumerate(IX) for j, k in enumerate(KINDS) for s in ("flat", "a,b") if t == "thorough" or (s == "flat" and (i + j) % 2)])
def basics(ctx, c):
    """periods of a line: left bounds, right bounds, durations, start and end; kind and structure; children"""
    ix = mkix(c)
    n = len(ix)
    a, ref = line(ctx, c, ix)
    check_index(ctx, a.index, ix, "index")
    loc = lambda t: to_wall(t, ix.tz)
    ctx.check(loc_of(a.start) == loc(ix.lefts[0]) and str(a.start.tz) == str(ix.pd().tz), "start")
    ctx.check(loc_of(a.end) == loc(ix.rights[-1]) and str(a.end.tz) == str(ix.pd().tz), "end")
    ctx.check([loc_of(t) for t in a.index.right] == [loc(t) for t in ix.rights], "right bounds")
    d = a.index.duration
    check_index(ctx, d.index, ix, "duration index")
    for i, x in enumerate(vals(d, "h")):
        ctx.eq(x, ix.durs[i], f"duration[{i}]")
    ctx.check(a.kind.name == c["kind"] and a.kind is getattr(pf, c["kind"]), "kind")
    ctx.check(a.structure.name == ("FLAT" if c["struct"] == "flat" else "NESTED"), "structure")
    if c["struct"] == "flat":
        ctx.check(raises(lambda: a["a"]), "flat line has no children")
    else:
        ctx.check(list(a) == list(ref.children) and len(a) == len(ref.children), "names of children")
        for k, x in ref.children.items():
            for col in AVAIL[x.kind]:
                same_objects(ctx, vals(getattr(a[k], col)), vals(getattr(getattr(a, k), col)), f"child {k}.{col}")
        ctx.check(raises(lambda: a["nope"]), "unknown child")
    if c["kind"] == "COMPLETE":
        for part, k, cols in (("volume", "VOLUME", "wq"), ("price", "PRICE", "p"), ("revenue", "REVENUE", "r")):
            x = getattr(a, part)
            ctx.check(x.kind.name == k, f"{part}: kind")
            check_index(ctx, x.index, ix, part)
            for col in cols:
                for i, (u, v) in enumerate(zip(vals(getattr(x, col), UNITS[col]), vals(getattr(a, col), UNITS[col]))):
                    ctx.eq(u, v, f"{part}.{col}[{i}]")


def loc_of(t):
    return t.tz_localize(None).to_pydatetime()
