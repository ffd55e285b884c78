from symx.tl import *
from symx.runner import harness, meta

meta("T09",
     bounds="indices with any start in 2003-2030, timezone-naive or Europe/Berlin: 1-3 days, months, quarters, years; 50 hours (quick: 30), also 3-25 hours (without full day: error); 180 quarterhours (quick: naive, two start hours)",
     outside="other time zones; start of day between 02:00 and 03:00 in time zones with DST")


def cfgs(tier):
    out = []
    for tz in (None, BERLIN):
        for f in ("D", "MS", "QS", "QS-FEB", "YS"):
            for n in (1, 2):
                for a, b in (("00:00", "06:00"), ("06:00", "00:00"), ("06:00", "13:15")):
                    if tier == "quick" and n == 2 and b == "13:15":
                        continue
                    out.append(dict(freq=f, n=n, tz=tz, sod=a, new=b))
        out.append(dict(freq="h", n=28, tz=tz, sod=None, new="06:15", start=4))
        for b in ("00:00", "06:00"):
            for h in ((1, 14, 23) if tz else (0, 1, 6, 14, 23)) if tier == "quick" else range(24):
                if not (tz and h == 2):
                    out.append(dict(freq="h", n=30 if tier == "quick" else 50, tz=tz, sod=None, new=b, start=h))
            for n in (3, 12) if tier == "quick" else (3, 7, 12, 23, 24, 25):
                out.append(dict(freq="h", n=n, tz=tz, sod=None, new=b, start=18))
            if not tz or tier == "thorough":
                # (most of a day must be removed at start)
                out.append(dict(freq="15min", n=180, tz=tz, sod=None, new=b, start=5 if b == "00:00" else 11))
            if tier == "thorough":
                for h in (0, 3, 11, 18):
                    out.append(dict(freq="15min", n=190, tz=tz, sod=None, new=b, start=h))
    return out


@harness("T09", cfgs, engine="T", budget=90, max_paths=500)
def set_it(ctx, c):
    f, n = c["freq"], c["n"]
    new = dt.time.fromisoformat(c["new"])
    sod = dt.time.fromisoformat(c["sod"] or "00:00")
    i = index(ctx, "i", f, n, c["tz"], sod=sod)
    s0 = lift(i[0])
    if rank(f) < 2:
        ctx.assume(And(s0.h == c["start"], s0.r < HOUR))
    t = tools.startofday.get(i)
    us = tsym.time_us(t)
    check(ctx, us == (s0.h * HOUR + s0.r) / 1000 if isz(s0.t) else us == s0.t // 1000, "start of day")
    if rank(f) >= 2:
        txt, td = tools.startofday.get(i, "str"), tools.startofday.get(i, "timedelta")
        ctx.check(txt == f"{c['sod']}:00", "start of day as text")
        ctx.check(td == dt.timedelta(hours=sod.hour, minutes=sod.minute), "start of day as timedelta")
    if rank(f) < 2:
        # full days with the wanted start of day that lie within the index
        at = [simp(And(lift(x).h == new.hour, lift(x).r == new.minute * MIN)) for x in i]
        e = ref_plus(i[-1], f, 1)
        at.append(simp(And(e.h == new.hour, e.r == new.minute * MIN)))
        hit = [ctx.branch(a) for a in at]
        if True not in hit:
            ctx.check(raises(lambda: tools.startofday.set(i, new)), "start of day not found: error")
            return
        first = hit.index(True)
        last = n - hit[::-1].index(True)
        if first == last:
            # not a single full day with the wanted start
            ctx.check(raises(lambda: tools.startofday.set(i, new)), "no full day: error")
            return
        exp = list(i)[first:last]
    else:
        exp = list(i)
    got = tools.startofday.set(i, new)
    outs(ctx, "result", got)
    ctx.check(len(got) == len(exp), "length")
    ctx.check(got.freq == i.freq, "frequency")
    for k, (a, b) in enumerate(zip(got, exp)):
        a, b = lift(a), lift(b)
        if rank(f) < 2:
            check(ctx, same(a, b), f"timestamp [{k}]")
        else:
            check(ctx, And(a.y == b.y, a.m == b.m, a.d == b.d, a.h == new.hour, a.r == new.minute * MIN, a.tzn == b.tzn), f"timestamp [{k}]")


@harness("T09", lambda t: [dict(tz=tz) for tz in (None, BERLIN)], engine="T")
def refused(ctx, c):
    """only full quarterhours can be start of day"""
    i = index(ctx, "i", "D", 2, c["tz"])
    m, s = ctx.int("mi", 0, 59), ctx.int("s", 0, 59)
    new = tsym.SymTime((m * 60 + s) * 10**6) if ctx.symbolic else dt.time(0, m, s)
    ok = And(s == 0, imod(m, 15) == 0)
    got = not raises(lambda: tools.startofday.set(i, new), ValueError)
    ctx.out("accepted", got)
    check(ctx, ok if got else Not(ok), "refused unless on the quarterhour")
