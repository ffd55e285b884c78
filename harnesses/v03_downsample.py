from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V03",
     bounds="source lines of 1-72 periods (quarterhourly, hourly, daily, monthly, quarterly incl. anchored) to every longer frequency, with and without incomplete periods at either end, start-of-day 00:00 and 06:00 (also 05:00, 07:00, 23:00), no time zone / Europe/Berlin (23- and 25-hour days, DST months) / Asia/Kolkata / America/New_York / UTC; all four kinds; flat and nested; symbolic values in [-1000, 1000]; time zones of the southern hemisphere (also with a half-hour change); histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="longer source indices; other time zones; float rounding")

CASES = [
    dict(freq="15min", start="2024-03-31", n=92, tz=B, to=["h", "D"]),
    dict(freq="15min", start="2024-02-28 06:00", n=96, to=["h", "D"]),
    dict(freq="h", start="2024-03-30", n=47, tz=B, to=["D"]),
    dict(freq="h", start="2024-10-26 06:00", n=49, tz=B, to=["D"]),
    dict(freq="h", start="2024-10-27", n=25, tz=B, to=["D"]),
    dict(freq="h", start="2024-03-30 06:00", n=23, tz=B, to=["D"]),
    dict(freq="h", start="2024-02-28", n=48, tz=K, to=["D"]),
    dict(freq="h", start="2024-02-28 06:00", n=48, to=["D", "MS"]),
    dict(freq="D", start="2024-01-30", n=35, to=["MS"]),
    dict(freq="D", start="2024-03-01", n=31, tz=B, to=["MS"]),
    dict(freq="D", start="2024-02-28 06:00", n=34, tz=B, to=["MS"]),
    dict(freq="D", start="2024-09-30", n=33, tz=B, to=["MS", "QS"]),
    dict(freq="MS", start="2023-12-01", n=5, to=["QS", "QS-FEB", "YS"]),
    dict(freq="MS", start="2024-01-01", n=3, tz=B, to=["QS"]),
    dict(freq="MS", start="2023-11-01 06:00", n=6, tz=B, to=["QS-FEB", "QS"]),
    dict(freq="MS", start="2023-12-01", n=14, tz=B, to=["YS"]),
    dict(freq="MS", start="2023-03-01 06:00", n=13, to=["YS-APR", "QS-MAR"]),
    dict(freq="QS", start="2023-10-01", n=6, tz=B, to=["YS"]),
    dict(freq="QS-FEB", start="2023-02-01", n=4, to=["YS-FEB"]),
    dict(freq="QS", start="2023-04-01 06:00", n=4, tz=B, to=["YS-APR"]),
    dict(freq="h", start="2024-11-02", n=49, tz=N, to=["D"]),
    dict(freq="h", start="2024-03-09 05:00", n=47, tz=N, to=["D"]),
    dict(freq="15min", start="2024-02-28 23:00", n=96, tz=U, to=["h", "D"]),
    dict(freq="D", start="2024-02-27 05:00", n=35, tz=N, to=["MS"]),
    dict(freq="MS", start="2024-02-01 23:00", n=9, tz=U, to=["QS-FEB", "QS", "YS"]),
    dict(freq="h", start="2024-04-06", n=49, tz=S, to=["D"]),
    dict(freq="h", start="2024-10-05 06:00", n=47, tz=S, to=["D"]),
    dict(freq="15min", start="2024-04-07", n=98, tz=L, to=["D"]),
    dict(freq="D", start="2024-03-31", n=32, tz=S, to=["MS"]),
    dict(freq="QS-MAR", start="2021-12-01", n=9, tz=N, to=["YS-DEC", "YS-SEP"]),
]


def expand(cases):
    return [dict({k: v for k, v in c.items() if k != "to"}, to=t) for c in cases for t in c["to"]]


def cfgs(tier):
    out = []
    for i, c in enumerate(expand(CASES)):
        for j, kind in enumerate(AVAIL):
            out.append(dict(c, kind=kind, struct="flat"))
            if tier == "thorough" or (i + j) % 5 == 0:
                out.append(dict(c, kind=kind, struct="a,b" if i % 2 else "a(x,y),b"))
    return out


@harness("V03", cfgs, prio=1)
def asfreq(ctx, c):
    """volume/revenue: sum over each whole period; price: duration-weighted average; price of a
    complete line = revenue / volume.  Only whole periods."""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], lo=1)
    if not len(rx.ix.asfreq(c["to"])[0]):
        ctx.check(raises(lambda: x.asfreq(c["to"])), "no full period: error")
        return
    check_line(ctx, x.asfreq(c["to"]) if c["to"] != "MS" else x.asfreq(), rx.asfreq(c["to"]), "asfreq")


def signs(tier):
    out = prod([dict(MS3B, n=3, start="2024-01-01", to="QS"), dict(freq="D", start="2024-03-30", n=2, tz=B, to="D"), dict(QS2B, start="2024-01-01", n=4, to="YS")], opts("struct", "flat", "a,b"))
    return [c for c in out if tier == "thorough" or c["struct"] == "flat" or c["freq"] == "D"]


@harness("V03", signs)
def mixed_signs(ctx, c):
    """complete lines whose volumes may cancel"""
    x, rx = mkline(ctx, "x", "COMPLETE", mkix(c), c["struct"], "q", nz=True)
    check_line(ctx, x.asfreq(c["to"]), rx.asfreq(c["to"]), "asfreq")


def tcfg(tier):
    cs = expand(CASES)
    return [dict(c, unit=u, frame=f) for i, c in enumerate(cs) for u, f in [(None, False), ("MW", False), (None, True), ("MWh", True)] if tier == "thorough" or (i + (u is None) * 2 + f) % 4 == 0]


@harness("V03", tcfg)
def tools_sum_avg(ctx, c):
    """the same for plain series and dataframes (floats or with unit)"""
    ix = mkix(c)
    v = reals(ctx, "v", len(ix))
    nix, groups = ix.asfreq(c["to"])
    tot = [ssum([v[k] for k, _ in g]) for g in groups]
    avg = [ssum([v[k] * ix.hours(k) for k, _ in g]) / nix.hours(j) for j, g in enumerate(groups)]
    s = ser(v, ix.pd(), "nm", c["unit"])
    if c["frame"]:
        s = pd.DataFrame({"a": s, "b": s * 2})
    for fn, exp, lab in [(pf.asfreq_sum, tot, "sum"), (pf.asfreq_avg, avg, "avg")]:
        o = fn(s, c["to"])
        for col, f in ((("a", 1), ("b", 2)) if c["frame"] else ((None, 1),)):
            got = o if col is None else o[col]
            if len(nix):
                check_series(ctx, got, nix, [e * f for e in exp], lab, c["unit"])
            else:
                ctx.check(len(got) == 0, lab + " has only full periods")
    ctx.check(len(vals(s if not c["frame"] else s["a"])) == len(v), "unchanged")


@harness("V03", lambda t: [dict(base=list(b), to=to, kind=k) for b, to in ((("D", "2024-03-01", 31), "MS"), (("D", "2024-02-01", 29), "MS"), (("MS", "2024-01-01", 3), "QS"), (("MS", "2024-01-01", 12), "YS"), (("QS", "2024-01-01", 4), "YS")) for k in ("VOLUME", "PRICE", "REVENUE")], max_paths=20)
def history(ctx, c):
    """results do not depend on which lines were resampled before"""
    cs = alike(*c["base"])
    for k, ic in enumerate(cs + cs[::-1]):
        x, rx = mkline(ctx, f"x{k}_", c["kind"], mkix(ic), "flat")
        if len(rx.ix.asfreq(c["to"])[0]):
            check_line(ctx, x.asfreq(c["to"]), rx.asfreq(c["to"]), f"asfreq {k}")
        else:
            ctx.check(raises(lambda: x.asfreq(c["to"])), "no full period: error")
