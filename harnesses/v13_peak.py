from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V13",
     bounds="conversion between timeseries ((quarter)hourly and daily, 1-3 months, up to 62 distinct symbolic values, or 6 per pattern for hourly data) and peak / offpeak values per month, quarter or year (1-3 periods); 5 peak definitions; averagable and summable; with and without unit; start-of-day 00:00 and 06:00; incomplete periods; DST months; portfolio lines of all kinds; symbolic values in [-1000, 1000]; time zones of the southern hemisphere (also with a half-hour change); histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="quarters and years from hourly data beyond 3 months; missing values; float rounding")


def dur(ix, peak):
    """-> (duration peak, duration offpeak) of each period, by walking over quarterhours"""
    from symx.oracle import to_wall
    from fractions import Fraction

    l, r, days = PEAKS[peak]
    out = []
    for a, b in zip(ix.lefts, ix.rights):
        n = 0
        x = a
        while x < b:
            w = to_wall(x, ix.tz)
            if (l, r) == (0, 24):  # entire delivery days
                w -= dt.timedelta(hours=to_wall(a, ix.tz).hour)
            n += w.isoweekday() in days and l <= w.hour + w.minute / 60 < r
            x += dt.timedelta(minutes=15)
        n = Fraction(n, 4)
        out.append((n, Fraction(int((b - a).total_seconds()), 3600) - n))
    return out


PER = [
    dict(freq="MS", start="2024-02-01", n=2, tz=None),
    dict(freq="MS", start="2024-03-01", n=1, tz=B),
    dict(freq="MS", start="2024-10-01 06:00", n=2, tz=B),
    dict(freq="QS", start="2024-01-01", n=2, tz=B),
    dict(freq="QS-FEB", start="2024-02-01", n=1, tz=None),
    dict(freq="YS", start="2024-01-01", n=1, tz=B),
    dict(freq="YS-APR", start="2023-04-01 06:00", n=1, tz=None),
]
HAVE = [("peak", "offpeak"), ("base", "peak"), ("offpeak", "base")]


@harness("V13", lambda t: [dict(c, peak=p, have=list(h), sum=s, unit=u) for i, c in enumerate(PER) for j, p in enumerate(("german", "evening", "weekend", "morning")) for k, h in enumerate(HAVE) for s in (False, True) for u in (None, "Eur/MWh")
                           if t == "thorough" or ((i + j + k) % 4 == 0 and (s + bool(u)) % 2 == (i + j) % 2)])
def complete(ctx, c):
    """third of base, peak, offpeak from the other two; given ones unchanged"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    h = c["have"]
    v = {k: reals(ctx, k, n) for k in h}
    df = pd.DataFrame({**{k: ser(v[k], i, None, c["unit"]) for k in h}, "other": range(n)}, index=i)
    got = pf.tools.peakconvert.complete_bpoframe(df, mkpeak(c["peak"]), c["sum"])
    ctx.check(list(got.columns) == ["base", "peak", "offpeak"], "columns")
    check_index(ctx, got.index, ix, "result")
    g = {k: vals(got[k], c["unit"]) for k in got.columns}
    for k in h:
        same_objects(ctx, g[k], v[k], k + " unchanged")
    for j, (p, o) in enumerate(dur(ix, c["peak"])):
        b, pk, op = (g[k][j] for k in ("base", "peak", "offpeak"))
        if c["sum"]:
            ctx.eq(b, pk + op, f"base = peak + offpeak [{j}]")
        else:
            ctx.eq(b * (p + o), pk * p + op * o, f"base = duration-weighted average [{j}]")
    same_objects(ctx, vals(df[h[0]]), v[h[0]], "input unchanged")
    again = pf.tools.peakconvert.complete_bpoframe(got, mkpeak(c["peak"]), c["sum"])
    for k in got.columns:
        same_objects(ctx, vals(again[k], c["unit"]), g[k], k + " complete frame unchanged")
    ctx.check(raises(lambda: pf.tools.peakconvert.complete_bpoframe(df[[h[0]]], mkpeak(c["peak"]), c["sum"])), "one column is too little")


def po_ref(ix, v, freq, peak, summable):
    """-> (Ix of products, [(peak, offpeak)])"""
    six, groups = ix.asfreq(freq)
    pk = is_peak(ix, peak)
    out = []
    for g in groups:
        row = []
        for want in (True, False):
            ks = [k for k, _ in g if pk[k] == want]
            if summable:
                row.append(ssum([v[k] for k in ks]))
            else:
                d = ssum([ix.hours(k) for k in ks])
                row.append(ssum([v[k] * ix.hours(k) for k in ks]) / d)
        out.append(row)
    return six, out


TS = [
    dict(freq="D", start="2024-02-01", n=60, tz=B, to="MS", peak="weekend", m=60),
    dict(freq="D", start="2024-01-30", n=34, tz=None, to="MS", peak="weekend", m=34),
    dict(freq="D", start="2024-01-30 06:00", n=35, tz=None, to="MS", peak="tue", m=35),
    dict(freq="D", start="2024-03-01 06:00", n=31, tz=B, to="MS", peak="weekend", m=31),
    dict(freq="D", start="2023-12-30", n=95, tz=None, to="QS", peak="weekend", m=95),
    dict(freq="D", start="2024-01-30", n=95, tz=None, to="QS-FEB", peak="weekend", m=10),
    dict(freq="D", start="2023-12-25", n=380, tz=B, to="YS", peak="weekend", m=5),
    dict(freq="h", start="2024-03-01", n=743, tz=B, to="MS", peak="german", m=7),
    dict(freq="h", start="2024-10-01", n=745, tz=B, to="MS", peak="morning", m=7),
    dict(freq="h", start="2024-02-01", n=744, tz=None, to="MS", peak="german", m=11),
    dict(freq="h", start="2024-01-31 06:00", n=720, tz=B, to="MS", peak="german", m=7),
    dict(freq="h", start="2024-09-30 06:00", n=24 + 745, tz=B, to="MS", peak="mon7", m=5),
    dict(freq="h", start="2024-04-01", n=721, tz=S, to="MS", peak="german", m=7),
    dict(freq="15min", start="2024-02-01", n=2784, tz=None, to="MS", peak="evening", m=5),
    dict(freq="h", start="2024-01-01", n=2183, tz=B, to="QS", peak="german", m=5),
]
PEAKS["tue"] = (0, 24, (2,))


@harness("V13", lambda t: [dict(c, sum=s, unit=u) for k, c in enumerate(TS) for s in (False, True) for u in (None, "MW") if t == "thorough" or (k < 13 and (s + bool(u) + k) % 2 == 0 and not (k in (8, 11) and s))], prio=1)
def aggregate(ctx, c):
    """timeseries -> peak and offpeak value of each complete product"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    x = reals(ctx, "v", c["m"])
    v = [x[k % c["m"]] for k in range(n)]
    s = ser(v, i, None, c["unit"])
    got = pf.tools.peakconvert.tseries2poframe(s, mkpeak(c["peak"]), c["to"], c["sum"])
    six, exp = po_ref(ix, v, c["to"], c["peak"], c["sum"])
    ctx.check(sorted(got.columns) == ["offpeak", "peak"], "columns")
    if not check_index(ctx, got.index, six, "result"):
        return
    for k, name in enumerate(("peak", "offpeak")):
        for j, g in enumerate(vals(got[name], c["unit"])):
            ctx.eq(g, exp[j][k], f"{name}[{j}]")
    ctx.check(raises(lambda: pf.tools.peakconvert.tseries2poframe(s, mkpeak(c["peak"]), "D", c["sum"])), "shorter than month refused")


SP = [
    dict(freq="MS", start="2024-02-01", n=2, tz=None, to="h", peak="german"),
    dict(freq="MS", start="2024-03-01", n=1, tz=B, to="h", peak="morning"),
    dict(freq="MS", start="2024-10-01 06:00", n=1, tz=B, to="h", peak="german"),
    dict(freq="MS", start="2024-02-01", n=1, tz=None, to="15min", peak="evening"),
    dict(freq="MS", start="2024-02-01", n=3, tz=B, to="D", peak="weekend"),
    dict(freq="MS", start="2024-02-01 06:00", n=2, tz=B, to="D", peak="tue"),
    dict(freq="QS", start="2024-01-01", n=1, tz=B, to="h", peak="german"),
    dict(freq="QS-FEB", start="2023-11-01", n=2, tz=None, to="D", peak="weekend"),
    dict(freq="YS", start="2024-01-01", n=1, tz=B, to="D", peak="weekend"),
]


@harness("V13", lambda t: [dict(c, sum=s, unit=u, have=list(h)) for k, c in enumerate(SP) for s in (False, True) for u in (None, "MW") for j, h in enumerate(HAVE) if t == "thorough" or (k < 8 and (s + bool(u)) % 2 == k % 2 and j == (k + s) % 3)], prio=1)
def spread(ctx, c):
    """peak and offpeak values -> timeseries: uniform within each part of each period; totals preserved"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    h = c["have"]
    v = {k: reals(ctx, k, n) for k in h}
    df = pd.DataFrame({k: ser(v[k], i, None, c["unit"]) for k in h}, index=i)
    got = pf.tools.peakconvert.poframe2tseries(df, mkpeak(c["peak"]), c["to"], c["sum"])
    six, groups = ix.asfreq(c["to"])
    if not check_index(ctx, got.index, six, "result"):
        return
    if c["to"] == "h" and not c["sum"]:  # hourly, averagable data are the default
        same_objects(ctx, vals(pf.tools.peakconvert.poframe2tseries(df, mkpeak(c["peak"]))), vals(got), "default frequency")
    pk = is_peak(six, c["peak"])
    d = dur(ix, c["peak"])

    def part(name, j):
        if name in v:
            return v[name][j]
        b, o = v["base"][j], v["offpeak" if name == "peak" else "peak"][j]
        if c["sum"]:
            return b - o
        p = d[j] if name == "peak" else d[j][::-1]
        return (b * (p[0] + p[1]) - o * p[1]) / p[0]

    cache = {(nm, j): part(nm, j) / (d[j][nm == "offpeak"] if c["sum"] else 1) for nm in ("peak", "offpeak") for j in range(n)}
    for k, (g, gr) in enumerate(zip(vals(got, c["unit"]), groups)):
        nm, j = "peak" if pk[k] else "offpeak", gr[0][0]
        e = cache[nm, j]
        ctx.eq(g, e * six.hours(k) if c["sum"] else e, f"{nm}[{k}]")


CV = [
    dict(freq="MS", start="2024-02-01", n=2, tz=B, to="MS", peak="german"),
    dict(freq="MS", start="2024-03-01 06:00", n=2, tz=B, to="MS", peak="german"),
    dict(freq="MS", start="2024-01-01", n=3, tz=None, to="QS", peak="german"),
    dict(freq="MS", start="2024-02-01", n=3, tz=None, to="QS-FEB", peak="mon7"),
    dict(freq="QS", start="2024-01-01", n=1, tz=B, to="MS", peak="german"),
]


@harness("V13", lambda t: [dict(c, sum=s, unit=u) for k, c in enumerate(CV) for s in (False, True) for u in (None, "MW") if t == "thorough" or (k < 3 and (s + bool(u) + k) % 2 == 0)])
def convert(ctx, c):
    """peak and offpeak values to another frequency (same frequency: unchanged)"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    v = {k: reals(ctx, k, n) for k in ("peak", "offpeak")}
    df = pd.DataFrame({k: ser(v[k], i, None, c["unit"]) for k in v}, index=i)
    got = pf.tools.peakconvert.poframe2poframe(df, mkpeak(c["peak"]), c["to"], c["sum"])
    for f in ("D", "h"):
        ctx.check(raises(lambda: pf.tools.peakconvert.poframe2poframe(df, mkpeak(c["peak"]), f, c["sum"])), f"frequency {f} refused")
    ctx.check(raises(lambda: pf.tools.peakconvert.poframe2tseries(df, mkpeak(c["peak"]), "D", c["sum"])), "daily values refused")
    six, groups = ix.asfreq(c["to"])
    if not check_index(ctx, got.index, six, "result"):
        return
    d, dn = dur(ix, c["peak"]), dur(six, c["peak"])
    for q, name in enumerate(("peak", "offpeak")):
        for j, (g, gr) in enumerate(zip(vals(got[name], c["unit"]), groups)):
            if len(gr) == 1:
                k = gr[0][0]
                e = v[name][k] * (dn[j][q] / d[k][q] if c["sum"] else 1)
            elif c["sum"]:
                e = ssum([v[name][k] for k, _ in gr])
            else:
                e = ssum([v[name][k] * d[k][q] for k, _ in gr]) / dn[j][q]
            ctx.eq(g, e, f"{name}[{j}]")


@harness("V13", lambda t: [dict(c, kind=k, struct=s) for i, c in enumerate(TS) for k in ("VOLUME", "PRICE", "REVENUE", "COMPLETE") for s in ("flat", "nested") if i in ((1, 2) if t == "quick" else (0, 1, 2, 3, 7, 10)) and (s == "flat" or k == "VOLUME" or t == "thorough")])
def line(ctx, c):
    """peak and offpeak values of a portfolio line"""
    ix = mkix(c)
    n, i = len(ix), ix.pd()
    m = c["m"]

    def mk(pre):
        rep = lambda l: [l[k % m] for k in range(n)]
        kind, data, ref = c["kind"], {}, {}
        if kind in ("VOLUME", "COMPLETE"):
            ref["q"] = rep(reals(ctx, pre + "q", m, lo=1))
            data["q"] = ser(ref["q"], i)
        if kind == "PRICE":
            ref["p"] = rep(reals(ctx, pre + "p", m))
            data["p"] = ser(ref["p"], i)
        if kind in ("REVENUE", "COMPLETE"):
            ref["r"] = rep(reals(ctx, pre + "r", m, **(dict(hi=-1) if kind == "COMPLETE" else {})))
            data["r"] = ser(ref["r"], i)
        return pf.PfLine(data), Ref(kind, ix, **ref)

    if c["struct"] == "flat":
        x, ref = mk("")
    else:
        a, b = mk("a"), mk("b")
        x, ref = pf.PfLine({"a": a[0], "b": b[0]}), Ref.nested({"a": a[1], "b": b[1]})
    got = x.po(mkpeak(c["peak"]), c["to"])
    six, groups = ix.asfreq(c["to"])
    d = po_ref(ix, ix.durs, c["to"], c["peak"], True)[1]
    if ref.kind == "PRICE":
        tot = {"p": po_ref(ix, ref.p, c["to"], c["peak"], False)[1]}
    else:
        tot = {k: po_ref(ix, getattr(ref, k), c["to"], c["peak"], True)[1] for k in "qr" if getattr(ref, k) is not None}
    cols = {"VOLUME": "qw", "PRICE": "p", "REVENUE": "r", "COMPLETE": "qwrp"}[c["kind"]]
    ctx.check(sorted(got.columns) == sorted(list(cols) + ["duration"]), "columns")
    for j in range(len(six)):
        for k, name in enumerate(("peak", "offpeak")):
            row = got.loc[(six.pd()[j], name)]
            v = lambda col: val(row[col], {"duration": "h", **UNITS}[col])
            ctx.eq(v("duration"), d[j][k], f"{name} duration[{j}]")
            for col in tot:
                ctx.eq(v(col), tot[col][j][k], f"{name} {col}[{j}]")
            if "w" in cols:
                ctx.eq(v("w") * d[j][k], tot["q"][j][k], f"{name} w * duration [{j}]")
            if c["kind"] == "COMPLETE":
                ctx.eq(v("p") * tot["q"][j][k], tot["r"][j][k], f"{name} p * q [{j}]")


@harness("V13", lambda t: [dict(base=list(b), to=to, sum=s) for b, to in ((("h", "2024-03-01", 743), "MS"), (("D", "2024-02-01", 29), "MS"), (("h", "2024-02-01", 696), "MS")) for s in (False, True)], max_paths=20)
def history(ctx, c):
    """results do not depend on earlier conversions, with another peak definition or index"""
    f, start, n = c["base"]
    cs = [dict(freq=f, start=start, n=n, tz=B)]
    if start == "2024-02-01":
        cs += [dict(freq=f, start=start, n=n, tz=z) for z in (None, U)]
        # same instants in several time zones
        cs += [dict(freq=f, start=f"2024-02-01 {h}:00", n=n, tz=z) for h, z in (("06", B), ("05", U), ("00", N), ("06", "Africa/Tunis"))]
    else:
        cs += [dict(freq=f, start=start, n=744, tz=None), dict(freq=f, start=f"{start} 06:00", n=743, tz=B)]
    peaks = {nm: mkpeak(nm) for nm in (("weekend", "tue") if f == "D" else ("german", "morning", "mon7"))}
    for k, ic in enumerate(cs + cs[::-1]):
        ix = mkix(ic)
        for peak in list(peaks)[:: 1 if k < len(cs) else -1]:
            x = reals(ctx, f"v{k}{peak}", 3)
            v = [x[j % 3] for j in range(len(ix))]
            six, exp = po_ref(ix, v, c["to"], peak, c["sum"])
            got = pf.tools.peakconvert.tseries2poframe(ser(v, ix.pd()), peaks[peak], c["to"], c["sum"])
            if not check_index(ctx, got.index, six, f"{k} {peak}"):
                return
            for a, name in enumerate(("peak", "offpeak")):
                for j, g in enumerate(vals(got[name])):
                    ctx.eq(g, exp[j][a], f"{k} {peak} {name}[{j}]")
