from symx.hl import *
from symx.oracle import to_wall
from symx.runner import harness, meta
from symx.shapes import *

meta("V17",
     bounds="lines of all kinds, flat / nested / nested in nested, over 2-3 months, days (DST, start-of-day 06:00), anchored quarters or years, or a day of (quarter)hours; every relative position of a new index of 1-5 periods (equal, part, longer, partial, no overlap); other frequency, time zone, start-of-day; symbolic values in [-1000, 1000], incl. zero volume",
     outside="longer indices; missing values; float rounding")

IX = [
    dict(freq="MS", start="2024-03-01", n=3, tz=B),
    dict(freq="D", start="2024-03-30 06:00", n=2, tz=B),
    dict(freq="QS-FEB", start="2023-11-01", n=2, tz=None),
    dict(freq="YS", start="2021-01-01", n=2, tz=K),
]
KINDS = ["VOLUME", "PRICE", "REVENUE", "COMPLETE"]


def shifted(ix, a, n):
    """new index of n periods that starts a periods later"""
    from symx.oracle import nxt, to_utc

    x = ix.lefts[0]
    w = to_wall(x, ix.tz)
    u = ix.freq[:2]
    if u == "D":
        w += dt.timedelta(days=a)
    else:
        m = w.month - 1 + a * {"MS": 1, "QS": 3, "YS": 12}[u]
        w = w.replace(year=w.year + m // 12, month=m % 12 + 1)
    x, out = to_utc(w, ix.tz), []
    for _ in range(n):
        out.append(x)
        x = nxt(x, ix.freq, ix.tz)
    return Ix(ix.freq, ix.tz, out, ix.sod)


def ref(r, nix):
    def f(x):
        pos = {t: k for k, t in enumerate(x.ix.lefts)}
        g = lambda l: None if l is None else [l[pos[t]] if t in pos else 0.0 for t in nix.lefts]
        p = x.p if x.kind == "PRICE" else None
        return Ref(x.kind, nix, g(x.q), g(x.r), g(p))

    return r.map(f)


def cfgs(tier):
    return [dict(c, kind=k, struct=s) for i, c in enumerate(IX) for j, k in enumerate(KINDS) for l, s in enumerate(("flat", "nested", "deep")) if tier == "thorough" or i < 2 or (i + j + l) % 3 == 0]


@harness("V17", cfgs, max_paths=60)
def reindex(ctx, c):
    ix = mkix(c)
    x, r = mkline(ctx, "x", c["kind"], ix, c["struct"], "q", **(dict(lo=1) if c["kind"] == "COMPLETE" else {}))
    for n in (1, 2, 4):
        for a in range(-n - 1 if n < 4 else -3, len(ix) + 1):
            nix = shifted(ix, a, n)
            check_line(ctx, x.reindex(nix.pd()), ref(r, nix), f"{n} periods shifted by {a}")
    check_line(ctx, x, r, "unchanged")
    other = [dict(c, freq="YS-OCT" if c["freq"] != "YS" else "QS", start="2024-10-01", n=1), dict(c, tz=None if c["tz"] else B)]
    if c["freq"] == "D":
        other.append(dict(c, start="2024-03-30 09:00"))
    for o in other:
        ctx.check(raises(lambda: x.reindex(mkix(o).pd()), AssertionError) or raises(lambda: x.reindex(mkix(o).pd())), f"incompatible index {o['freq']} {o['tz']} {o['start']}")


@harness("V17", lambda t: [dict(D2, n=1), dict(MS1B)], max_paths=300)
def zero_volume(ctx, c):
    """complete lines: volume and revenue are kept and zero where there is no data; price is kept even if the volume is zero"""
    ix = mkix(c)
    x, r = mkline(ctx, "x", "COMPLETE", ix, "flat", "q")
    p = vals(x.p, "Eur/MWh")
    for a in (-1, 0):
        nix = shifted(ix, a, 2)
        y = x.reindex(nix.pd())
        check_line(ctx, y, ref(r, nix), f"shifted by {a}")
        ctx.eq(vals(y.p, "Eur/MWh")[-a], p[0], f"price kept ({a})")


@harness("V17", lambda t: [dict(c, kind=k, struct=s) for c in (H23, H24, Q96) for k in KINDS for s in ("flat", "nested") if t == "thorough" or (c["freq"] == "h" and (s == "flat" or k == "VOLUME"))], prio=1, max_paths=60)
def hours(ctx, c):
    ix = mkix(c)
    x, r = mkline(ctx, "x", c["kind"], ix, c["struct"], "q", lo=1)
    w = to_wall(ix.lefts[0], ix.tz)
    per = 24 if c["freq"] == "h" else 96
    for a, n in ((-1, per + len(ix)), (0, len(ix)), (1, per)):
        s = w + dt.timedelta(days=a)
        nix = Ix.make(c["freq"], s.isoformat(), n, c.get("tz"), ix.sod)
        check_line(ctx, x.reindex(nix.pd()), ref(r, nix), f"shifted by {a} days")
