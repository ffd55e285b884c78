import calendar

import holidays as hd
from symx.hl import *
from symx.oracle import rank, to_wall
from symx.runner import harness, meta
from symx.shapes import *

meta("V16",
     bounds="daily values of 1-2 (also partial) months (with a thorough run: every month of the year), hourly and quarterhourly values of 1 month, monthly, quarterly and yearly values of 1-3 years; several source and target years incl. leap years; with and without time zone (DST months) and start-of-day 06:00; no holidays, German and US holidays; series, dataframes and portfolio lines of every kind, flat and nested; symbolic values in [-1000, 1000]; time zones of the southern hemisphere (also with a half-hour change); histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="other holiday calendars; which of several equivalent days is used")


def one_of(ctx, alternatives, label):
    """alternatives: list of lists of (a, b) that are all equal"""
    alts = []
    for pairs in alternatives:
        cs = [ctx.cond(a, "eq", b) for a, b in pairs]
        if any(c is False for c in cs):
            continue
        cs = [c for c in cs if c is not True]
        if not cs:
            return ctx.check(True, label)
        alts.append(cs)
    if not ctx.symbolic:
        return ctx.check(False, label)
    from symx.core import z, z3

    ctx.check(z3.Or([z3.And([z(c) for c in cs]) for cs in alts]) if alts else False, label)


def days(ix, country):
    """per calendar day: (positions of the periods, type)"""
    out = {}
    off = dt.timedelta(hours=ix.sod.hour, minutes=ix.sod.minute)
    for k, x in enumerate(ix.lefts):
        out.setdefault((to_wall(x, ix.tz) - off).date(), []).append(k)
    hol = getattr(hd, country)(years=sorted({d.year for d in out})) if country else {}
    info = {}
    for d, ks in out.items():
        dur = ssum([ix.hours(k) for k in ks])
        if dur != 24:
            t = ("dst", dur)
        elif d in hol:
            t = ("holiday", hol[d])
        else:
            t = ("weekday", d.isoweekday())
        info[d] = (ks, t)
    return info


def target_ix(ix, year):
    w = to_wall(ix.lefts[0], ix.tz)
    e = to_wall(ix.rights[-1], ix.tz)
    e = e.replace(year=e.year - w.year + year)
    s = w.replace(year=year)
    out, x = [], None
    from symx.oracle import nxt, to_utc

    x, end = to_utc(s, ix.tz), to_utc(e, ix.tz)
    while x < end:
        out.append(x)
        x = nxt(x, ix.freq, ix.tz)
    return Ix(ix.freq, ix.tz, out, ix.sod)


def candidates(src, d, t):
    """days of the source that may be used for day d of type t"""
    same = {x: v for x, v in src.items() if x.month == d.month}
    if any(x.year == d.year for x in same):
        return [d]
    kind, what = t
    c = [x for x, (_, u) in same.items() if u == t]
    if kind == "dst" and not c:
        c = [x for x, (_, u) in same.items() if u[0] == "dst"]
    if kind == "holiday" and not c:
        c = [x for x, (_, u) in same.items() if u[0] == "holiday" or (u[0] != "dst" and x.isoweekday() == 7)]
    return c


def check_days(ctx, ix, tix, v, g, country, label):
    src, tgt = days(ix, country), days(tix, country)
    for d, (ks, t) in tgt.items():
        cand = candidates(src, d, t)
        alts = []
        for x in cand:
            sk = src[x][0]
            if len(sk) == len(ks):
                alts.append([(g[k], v[s]) for k, s in zip(ks, sk)])
        one_of(ctx, alts, f"{label} {t[0]} {d:%m-%d} from an equivalent day")
    # repetitions are minimized: each weekday of the month is used equally often (+-1)
    months = sorted({(d.year, d.month) for d in tgt})
    if len({m for _, m in months}) < len(months) or len({(d.year, d.month) for d in src}) != len(months):
        return
    for y, m in months:
        for wd in range(1, 8):
            a = [g[ks[0]] for d, (ks, t) in tgt.items() if d.month == m and t == ("weekday", wd)]
            b = [v[ks[0]] for d, (ks, t) in src.items() if d.month == m and t == ("weekday", wd)]
            if len(a) == len(b):
                alts = [[(ssum(a), ssum(b))]]
            elif len(a) == len(b) + 1:
                alts = [[(ssum(a), ssum(b) + e)] for e in b]
            elif len(a) == len(b) - 1:
                alts = [[(ssum(a), ssum(b) - e)] for e in b]
            else:
                continue
            one_of(ctx, alts, f"{label} every weekday {wd} of month {m} is used")


SRC = [
    dict(freq="D", start="2023-03-01", n=61, tz=B, year=2024),
    dict(freq="D", start="2024-02-01", n=29, tz=None, year=2025),
    dict(freq="D", start="2021-02-01 06:00", n=59, tz=B, year=2024),
    dict(freq="D", start="2023-10-01", n=31, tz=B, year=2026),
    dict(freq="D", start="2023-12-01", n=62, tz=None, year=2020),
    dict(freq="D", start="2024-02-01", n=29, tz=B, year=2024),
    dict(freq="D", start="2022-05-01", n=31, tz=K, year=2021),
    dict(freq="h", start="2023-03-01", n=743, tz=B, year=2025),
    dict(freq="h", start="2024-02-01 06:00", n=696, tz=None, year=2023),
    dict(freq="h", start="2023-10-01 06:00", n=745, tz=B, year=2024),
    dict(freq="15min", start="2023-02-01", n=2688, tz=None, year=2024),
    dict(freq="D", start="2023-01-16", n=40, tz=B, year=2025),
    dict(freq="D", start="2024-04-10 06:00", n=45, tz=None, year=2022),
    dict(freq="D", start="2024-12-20", n=24, tz=None, year=2021),
    dict(freq="h", start="2023-03-18", n=14 * 24 - 1, tz=B, year=2024),
    dict(freq="h", start="2023-03-18", n=9 * 24 - 1, tz=B, year=2024),
    dict(freq="D", start="2023-04-01", n=30, tz=S, year=2024),
    dict(freq="D", start="2023-02-01 05:30", n=28, tz=None, year=2025),
    dict(freq="h", start="2022-10-01", n=743, tz=S, year=2023),
]


def cfgs(tier):
    out = [dict(c, country=h) for c in SRC for h in (None, "DE", "US")]
    if tier == "quick":
        return [c for k, c in enumerate(out) if c["freq"] == "D" or (k // 3 not in (10, 15) and (k + k // 3) % 3 == 0)]
    for y, t in ((2023, 2024), (2024, 2027), (2020, 2021), (2022, 2028)):
        for m in range(1, 13):
            for h in (None, "DE"):
                out.append(dict(freq="D", start=f"{y}-{m:02d}-01", n=calendar.monthrange(y, m)[1], tz=B, year=t, country=h))
    return out


@harness("V16", cfgs, prio=1, max_paths=20)
def values(ctx, c):
    """(quarter)hourly and daily values: from day of same type, duration, month"""
    ix = mkix(c)
    v = reals(ctx, "v", len(ix))
    tix = target_ix(ix, c["year"])
    src, tgt = days(ix, c["country"]), days(tix, c["country"])
    s = ser(v, ix.pd(), "nm")
    if any(not candidates(src, d, t) for d, (_, t) in tgt.items()):
        ctx.check(raises(lambda: pf.map_frame_to_year(s, c["year"], c["country"])), "no equivalent day")
        return
    got = pf.map_frame_to_year(s, c["year"], c["country"])
    if check_index(ctx, got.index, tix, "series", freq=False):
        g = vals(got)
        check_days(ctx, ix, tix, v, g, c["country"], "value")
        for k, x in enumerate(g):
            ctx.out(f"g{k}", x)
    same_objects(ctx, vals(s), v, "input unchanged")


@harness("V16", lambda t: [dict(freq="D", start="2023-02-01", n=28, tz=B, year=2024), dict(freq="D", start="2024-02-01 06:00", n=29, tz=B, year=2022)])
def frame(ctx, c):
    """all columns of a dataframe come from the same day"""
    ix = mkix(c)
    n = len(ix)
    a, b = reals(ctx, "a", n), reals(ctx, "b", n)
    df = pd.DataFrame({"a": ser(a, ix.pd()), "b": ser(b, ix.pd(), None, "MW"), "k": range(n)})
    got = pf.map_frame_to_year(df, c["year"])
    tix = target_ix(ix, c["year"])
    if check_index(ctx, got.index, tix, "frame", freq=False):
        check_days(ctx, ix, tix, a, vals(got["a"]), None, "a")
        for k, (x, y) in enumerate(zip(vals(got["a"]), vals(got["b"], "MW"))):
            one_of(ctx, [[(x, a[j]), (y, b[j])] for j in [int(got["k"].iloc[k])]], f"row {k}")


@harness("V16", lambda t: [dict(freq="D", start="2023-02-01", n=28, tz=B, year=2024, kind=k, struct=s) for k in ("VOLUME", "PRICE", "REVENUE", "COMPLETE") for s in ("flat", "nested")]
         + [dict(freq=f, start=s, n=n, tz=z, year=y, kind=k, struct=st) for f, s, n, z, y in (("MS", "2023-02-01", 3, B, 2024), ("MS", "2024-02-01 06:00", 1, None, 2025), ("MS", "2022-11-01", 14, None, 2027), ("MS", "2020-12-01", 26, B, 2021), ("QS", "2024-01-01", 4, B, 2025), ("QS-FEB", "2023-11-01", 2, None, 2030), ("YS", "2024-01-01", 2, None, 2025), ("YS-APR", "2023-04-01", 1, B, 2024))
            for k in ("VOLUME", "PRICE", "REVENUE", "COMPLETE") for st in ("flat", "nested") if t == "thorough" or st == "flat" or n == 3], prio=1)
def line(ctx, c):
    """power and price are kept (revenue: per hour), in every child"""
    ix = mkix(c)
    kw = dict(lo=1) if c["kind"] == "COMPLETE" else {}
    x, ref = mkline(ctx, "x", c["kind"], ix, c["struct"], "w" if c["struct"] == "flat" else "q", **kw)
    got = pf.map_to_year(x, c["year"], "DE")
    tix = target_ix(ix, c["year"])
    d, td = ix.durs, tix.durs

    def chk(g, r, label):
        ctx.check(g.kind.name == c["kind"], label + " kind")
        if not check_index(ctx, g.index, tix, label):
            return
        per = {}
        if c["kind"] in ("VOLUME", "COMPLETE"):
            per["w"] = (vals(g.w, "MW"), [a / h for a, h in zip(r.q, d)])
            for k, (q, w) in enumerate(zip(vals(g.q, "MWh"), per["w"][0])):
                ctx.eq(q, w * td[k], f"{label} q = w * duration [{k}]")
        if c["kind"] in ("PRICE", "COMPLETE") and r.p is not None:
            per["p"] = (vals(g.p, "Eur/MWh"), r.p)
        if c["kind"] == "REVENUE":
            per["r/h"] = ([a / h for a, h in zip(vals(g.r, "Eur"), td)], [a / h for a, h in zip(r.r, d)])
        if c["kind"] == "COMPLETE":
            for k, (a, b, e) in enumerate(zip(vals(g.r, "Eur"), vals(g.p, "Eur/MWh"), vals(g.q, "MWh"))):
                ctx.eq(a, b * e, f"{label} r = p * q [{k}]")
        for col, (a, b) in per.items():
            if ix.freq == "D":
                check_days(ctx, ix, tix, b, a, "DE", f"{label} {col}")
            else:
                for k, t in enumerate(tix.lefts):
                    w = to_wall(t, tix.tz)
                    cand = [j for j, y in enumerate(ix.lefts) if to_wall(y, ix.tz).month == w.month]
                    exact = [j for j in cand if to_wall(ix.lefts[j], ix.tz).year == w.year]
                    one_of(ctx, [[(a[k], b[j])] for j in exact or cand], f"{label} {col} [{k}] from same month")

    if c["struct"] == "flat":
        chk(got, ref, "flat")
    else:
        ctx.check(got.structure.name == "NESTED" and sorted(got) == sorted(ref.children), "children")
        for k in ref.children:
            chk(got[k], ref.children[k], k)


@harness("V16", lambda t: [dict(freq="D", start=s, n=n, tz=z, year=y, kind=k) for k in ("VOLUME", "COMPLETE") for s, n, z, y in (("2024-03-01", 31, B, 2024), ("2023-02-01", 28, None, 2023))] + [dict(freq="MS", start="2023-02-01", n=14, tz=B, year=2023, kind=k) for k in ("VOLUME", "REVENUE")])
def same_year(ctx, c):
    """mapping to its own year changes nothing"""
    ix = mkix(c)
    x, ref = mkline(ctx, "x", c["kind"], ix, "flat", "q", **(dict(lo=1) if c["kind"] == "COMPLETE" else {}))
    check_line(ctx, pf.map_to_year(x, c["year"], "DE"), ref, "mapped")


@harness("V16", lambda t: [dict(freq="D", start="2023-02-01", n=28, tz=B, to=list(x)) for x in (("2024-02-01", 29), ("2025-02-01", 28))])
def to_index(ctx, c):
    """to any index that spans the same calendar months; others are refused"""
    ix, tix = mkix(c), mkix(dict(c, start=c["to"][0], n=c["to"][1]))
    v = reals(ctx, "v", len(ix))
    s = ser(v, ix.pd())
    f = pf.tools.changeyear.map_frame_to_index
    got = f(s, tix.pd(), "DE")
    if check_index(ctx, got.index, tix, "series", freq=False):
        check_days(ctx, ix, tix, v, vals(got), "DE", "value")
    ctx.check(raises(lambda: f(s, mkix(dict(c, tz=None, start=c["to"][0], n=28)).pd(), "DE")), "time zone must be equal")
    ctx.check(raises(lambda: f(s, mkix(dict(c, freq="h", start=c["to"][0], n=24)).pd(), "DE")), "frequency must be equal")
    ctx.check(raises(lambda: f(s, mkix(dict(c, start="2024-05-01", n=31)).pd(), "DE")), "other month")


@harness("V16", lambda t: [dict(base=["D", "2023-02-01", 28], year=y) for y in (2024, 2022)] + [dict(base=["D", "2023-05-01", 31], year=y) for y in (2024, 2026)], max_paths=20, prio=1)
def history(ctx, c):
    """the result does not depend on what was mapped before, or with which holidays"""
    cs = [x for x in alike(*c["base"]) if x["n"] == c["base"][2]]
    for k, ic in enumerate(cs + cs[::-1]):
        ix = mkix(ic)
        v = reals(ctx, f"v{k}_", len(ix))
        y = c["year"] + (k + k // len(cs)) % 2
        tix = target_ix(ix, y)
        for country in ("DE", None, "US"):
            got = pf.map_frame_to_year(ser(v, ix.pd()), y, country)
            if check_index(ctx, got.index, tix, f"series {k}", freq=False):
                check_days(ctx, ix, tix, v, vals(got), country, f"{k} {country}")
