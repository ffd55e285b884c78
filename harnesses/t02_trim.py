from symx.tl import *
from symx.runner import harness, meta

meta("T02",
     bounds="indices of any start in 2003-2030, timezone-naive or Europe/Berlin, with up to 32 (quick) or 66 (thorough) timestamps; trimming between 9 pairs of frequencies; any start of day on the (quarter)hour outside 02:00-03:00 for hourly indices",
     outside="longer indices; full days of hours in Berlin (thorough: weeks of the DST transitions of 2020-2030); other time zones")


def cfgs(tier):
    q = [("MS", "QS", 8), ("MS", "QS-FEB", 5), ("MS", "YS", 14), ("MS", "YS-MAR", 13), ("QS", "YS", 6), ("QS-FEB", "YS-FEB", 6), ("D", "MS", 32), ("D", "QS", 4),
         ("h", "D", 26), ("h", "h", 3), ("15min", "h", 5), ("15min", "D", 9), ("YS", "MS", 2), ("D", "D", 3), ("h", "MS", 6)]
    t = [("MS", "QS", 12), ("MS", "YS", 26), ("MS", "QS-MAR", 12), ("MS", "QS-FEB", 7), ("15min", "h", 7), ("D", "MS", 28), ("D", "MS", 30), ("D", "MS", 40), ("D", "QS", 95), ("D", "MS", 64), ("h", "D", 50), ("15min", "h", 12), ("15min", "D", 100)]
    out = []
    for k, (a, b, n) in enumerate(q if tier == "quick" else q + t):
        for tz in (None, BERLIN):
            if tier == "quick" and tz and a in ("15min", "h") and b != "MS":
                n = 3
            ms = [None]
            if (a, b) == ("D", "MS") and tier == "quick" and not tz:
                # exactly one month, of each length
                for m, k in ((2, 28), (4, 30), (12, 31)):
                    out.append(dict(i=a, freq=b, n=k, tz=tz, sod="00:00", month=m))
            if a == "D" and n > 27:
                ms = ([3] if tz else [2, 12]) if tier == "quick" else range(1, 13)
            if tier == "thorough" and tz and (a, b) == ("h", "D"):
                for y in range(2020, 2031):
                    out.append(dict(i=a, freq=b, n=n, tz=tz, sod="06:00", month=None, year=y))
                continue
            for m in ms:
                out.append(dict(i=a, freq=b, n=n, tz=tz, sod="00:00" if k % 2 else "06:00", month=m))
    return out


def ref_kept(i, freq, sod, f):
    """formula: element k belongs to a full period of the wanted frequency"""
    end = ref_plus(i[-1], f, 1)
    out = []
    for x in i:
        if rank(freq) <= rank(f):
            out.append(True)
            continue
        if freq == "h":
            s = lift(x)
            y, m, d, h, _ = s.utc()
            fl = tsym.from_utc(y, m, d, h, 0, s.tzn)
        else:
            fl = ref_floor(x, freq, sod)
        out.append(simp(And(le(i[0], fl), le(ref_plus(fl, freq, 1), end))))
    return out


@harness("T02", cfgs, engine="T", budget=90, max_paths=600)
def trim(ctx, c):
    sod = dt.time.fromisoformat(c["sod"])
    i = index(ctx, "i", c["i"], c["n"], c["tz"], sod=sod)
    s0 = lift(i[0])
    if rank(c["i"]) < 2 <= rank(c["freq"]):
        # the start of day is the time of the first timestamp
        h = ctx.choose("hour", [0, 6, 17])
        ctx.assume(And(s0.h == h, s0.r == 0))
        sod = dt.time(h)
    if c["month"]:
        # start in (or just before) this month
        ctx.assume(Or(And(s0.m == c["month"], s0.d <= 1), And(s0.m == (c["month"] + 10) % 12 + 1, s0.d >= (27 if c["n"] > 32 else 28))))
    if c.get("year"):
        ctx.assume(Or(s0.m == 3, s0.m == 10))
        ctx.assume(s0.y == c["year"])
        ctx.assume(s0.d >= 24)
    got = tools.trim.index(i, c["freq"])
    kept = ref_kept(i, c["freq"], sod, c["i"])
    outs(ctx, "trimmed", got)
    lo = 0
    n = len(got)
    # where is the result in the original?
    check(ctx, n <= c["n"], "not longer")
    if n:
        hits = [k for k in range(c["n"]) if i[k] is got[0]]  # (quick)
        hits = hits or [k for k in range(c["n"]) if ctx.branch(simp(same(i[k], got[0])))]
        ctx.check(len(hits) == 1, "subset of the index")
        lo = hits[0]
        for k in range(n):
            check(ctx, same(got[k], i[lo + k]), f"part {k}")
        ctx.check(got.freq == i.freq, "frequency")
    for a in range(0, c["n"], 8):
        ks = range(a, min(a + 8, c["n"]))
        check(ctx, And(*(kept[k] if lo <= k < lo + n else Not(kept[k]) for k in ks)), f"elements {a}.. are kept if and only if they belong to a full period")
