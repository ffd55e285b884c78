from symx.hl import *
from symx.runner import harness, meta
from symx.shapes import *

meta("V04",
     bounds="source lines of 1-3 periods (hour to year, incl. anchored quarters and years) to every shorter frequency that yields at most ~370 periods; start-of-day 00:00 and 06:00 (also 05:00, 07:00, 23:00); no time zone / Europe/Berlin / Asia/Kolkata / America/New_York / UTC; all four kinds; flat and nested; missing source values (series); symbolic values in [-1000, 1000]; time zones of the southern hemisphere (also with a half-hour change); histories of 8-16 calls on look-alike indices (other time zone, year, start-of-day, length)",
     outside="results with more periods; other time zones; float rounding")

CASES = [
    dict(freq="h", start="2024-02-29 06:00", n=24, to=["15min"]),
    dict(freq="h", start="2024-03-31", n=23, tz=B, to=["15min"]),
    dict(freq="D", start="2024-03-30", n=3, tz=B, to=["h"]),
    dict(freq="D", start="2024-03-31", n=1, tz=B, to=["15min", "h"]),
    dict(freq="D", start="2024-10-26 06:00", n=2, tz=B, to=["h"]),
    dict(freq="D", start="2024-02-28", n=2, tz=K, to=["h"]),
    dict(freq="D", start="2024-02-28 06:00", n=2, to=["h", "15min"]),
    dict(freq="MS", start="2024-02-01", n=2, to=["D"]),
    dict(freq="MS", start="2024-03-01", n=1, tz=B, to=["D"]),
    dict(freq="MS", start="2024-09-01 06:00", n=3, tz=B, to=["D"]),
    dict(freq="QS", start="2024-01-01", n=2, tz=B, to=["MS", "D"]),
    dict(freq="QS-FEB", start="2023-11-01 06:00", n=2, tz=B, to=["MS"]),
    dict(freq="YS", start="2023-01-01", n=2, to=["MS", "QS"]),
    dict(freq="YS", start="2024-01-01", n=1, tz=B, to=["MS", "QS", "D"]),
    dict(freq="YS-APR", start="2023-04-01 06:00", n=2, tz=B, to=["MS", "QS"]),
    dict(freq="YS-FEB", start="2023-02-01", n=2, to=["QS-FEB", "QS-MAY"]),
    dict(freq="D", start="2024-11-02", n=2, tz=N, to=["h", "15min"]),
    dict(freq="D", start="2024-03-09 05:00", n=2, tz=N, to=["h"]),
    dict(freq="MS", start="2024-02-01 07:00", n=2, tz=N, to=["D"]),
    dict(freq="D", start="2024-04-06", n=2, tz=S, to=["h"]),
    dict(freq="D", start="2024-10-05 06:00", n=2, tz=S, to=["h", "15min"]),
    dict(freq="D", start="2024-10-06", n=1, tz=L, to=["15min"]),
    dict(freq="QS", start="2024-01-01", n=2, tz=S, to=["MS"]),
    dict(freq="QS-MAR", start="2023-12-01 23:00", n=2, tz=U, to=["MS", "D"]),
    dict(freq="YS-DEC", start="2023-12-01", n=2, tz=N, to=["QS-MAR", "MS"]),
]


def expand(cases):
    return [dict({k: v for k, v in c.items() if k != "to"}, to=t) for c in cases for t in c["to"]]


def cfgs(tier):
    out = []
    for i, c in enumerate(expand(CASES)):
        for j, kind in enumerate(AVAIL):
            out.append(dict(c, kind=kind, struct="flat"))
            if tier == "thorough" or (i + j) % 5 == 0:
                out.append(dict(c, kind=kind, struct="a,b" if i % 2 else "a(x,y),b"))
    return out


@harness("V04", cfgs, prio=1)
def asfreq(ctx, c):
    """volume/revenue spread in proportion to duration, prices repeated; and back again"""
    kw = dict(lo=1) if c["kind"] == "COMPLETE" else {}
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], **kw)
    up = x.asfreq(c["to"])
    check_line(ctx, up, rx.asfreq(c["to"]), "asfreq")


@harness("V04", lambda t: [c for c in cfgs(t) if c["kind"] != "COMPLETE" or t == "thorough"][:: 1 if t == "thorough" else 3])
def roundtrip(ctx, c):
    """up and down again restores the line"""
    kw = dict(lo=1) if c["kind"] == "COMPLETE" else {}
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), c["struct"], **kw)
    check_line(ctx, x.asfreq(c["to"]).asfreq(c["freq"]), rx, "roundtrip")


@harness("V04", lambda t: [dict(c, unit=u, nan=k) for i, c in enumerate(expand(CASES)) for u in (None, "MW") for k in (None, 0, -1) if (k is None or c["n"] > 1) and (t == "thorough" or (i + (u is None) + (k or 2)) % 4 == 0)])
def tools_sum_avg(ctx, c):
    """plain series: spread / repeat; a missing value stays missing, and is not filled from another period"""
    ix = mkix(c)
    v = reals(ctx, "v", len(ix))
    if c["nan"] is not None:
        v[c["nan"]] = NAN
    nix, groups = ix.asfreq(c["to"])
    ex_sum = [NAN if core._isnan(v[g[0][0]]) else v[g[0][0]] * g[0][1] for g in groups]
    ex_avg = [v[g[0][0]] for g in groups]
    s = ser(v, ix.pd(), "nm", c["unit"])
    check_series(ctx, pf.asfreq_sum(s, c["to"]), nix, ex_sum, "sum", c["unit"])
    check_series(ctx, pf.asfreq_avg(s, c["to"]), nix, ex_avg, "avg", c["unit"])


@harness("V04", lambda t: [dict(c, kind=k, to=to) for k in AVAIL for c, to in [(MS2, "QS-FEB"), (dict(freq="QS", start="2024-01-01", n=2), "QS-FEB"), (dict(freq="YS", start="2024-01-01", n=1), "QS-FEB"), (dict(freq="YS", start="2024-01-01", n=1), "YS-APR")] if to != "QS-FEB" or c["freq"] != "MS"])
def incompatible(ctx, c):
    """frequencies of which neither subdivides the other: an error"""
    x, rx = mkline(ctx, "x", c["kind"], mkix(c), "flat", lo=1)
    ctx.check(raises(lambda: x.asfreq(c["to"])), "rejected")


@harness("V04", lambda t: [dict(base=list(b), to=to, kind=k) for b, to in ((("MS", "2024-03-01", 1), "D"), (("MS", "2024-02-01", 1), "D"), (("QS", "2024-01-01", 1), "MS"), (("YS", "2024-01-01", 1), "QS"), (("D", "2024-03-31", 1), "h")) for k in ("VOLUME", "PRICE", "REVENUE")], max_paths=20)
def history(ctx, c):
    """results do not depend on which lines were resampled before"""
    cs = alike(*c["base"])
    for k, ic in enumerate(cs + cs[::-1]):
        x, rx = mkline(ctx, f"x{k}_", c["kind"], mkix(ic), "flat")
        check_line(ctx, x.asfreq(c["to"]), rx.asfreq(c["to"]), f"asfreq {k}")
