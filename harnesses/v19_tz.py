from symx.hl import *
from symx.oracle import nxt, rank, to_utc, to_wall
from symx.runner import harness, meta
from symx.shapes import *

meta("V19",
     bounds="series and dataframes (with and without unit) over 1-5 months, days, quarters or years or 1-3 days of (quarter)hours, incl. both DST transitions and start-of-day 06:00; without time zone, with DST but unlocalized, or in Europe/Berlin, Asia/Kolkata, UTC or America/New_York (targets also Europe/London, Africa/Lagos, Africa/Johannesburg); to time-zone-agnostic or to each of these; floating and not; left-bound and (two conventions of) right-bound input; with and without frequency; up to 100 distinct symbolic values in [-1000, 1000]; time zones of the southern hemisphere (also with a half-hour change)",
     outside="longer series; other time zones; input that starts or ends in a repeated or skipped hour")

N = "America/New_York"
STEP = {"15min": dt.timedelta(minutes=15), "h": dt.timedelta(hours=1)}


# -- reference: timeline = (Ix, values) ---------------------------------------------------


def agnostic(ix, v):
    if ix.tz is None:
        return ix, v
    walls = [to_wall(x, ix.tz) for x in ix.lefts]
    if rank(ix.freq) >= 2:
        return Ix(ix.freq, None, walls), v
    seen = {}
    for w, a in zip(walls, v):
        seen.setdefault(w, a)
    out, w = [], walls[0]
    while w <= walls[-1]:
        out.append(w)
        w += STEP[ix.freq]
    return Ix(ix.freq, None, out), [seen[w] if w in seen else seen[w - dt.timedelta(hours=1)] for w in out]


def aware(ix, v, tz):
    assert ix.tz is None
    if rank(ix.freq) >= 2:
        return Ix(ix.freq, tz, [to_utc(x, tz) for x in ix.lefts]), v
    at = dict(zip(ix.lefts, v))
    out, x = [], to_utc(ix.lefts[0], tz)
    while x <= to_utc(ix.lefts[-1], tz):
        out.append(x)
        x += STEP[ix.freq]
    return Ix(ix.freq, tz, out), [at[to_wall(x, tz)] for x in out]


def convert(ix, v, force, tz, floating):
    if force is None:
        return ix, v
    if force == "agnostic":
        return agnostic(ix, v)
    if ix.tz is None:
        return aware(ix, v, tz)
    if ix.tz == tz:
        return ix, v
    if floating:
        return aware(*agnostic(ix, v), tz)
    if rank(ix.freq) > 2 and any(to_wall(x, tz).day != 1 for x in ix.lefts):
        return None, v
    return Ix(ix.freq, tz, ix.lefts), v


def regular(ix):
    """whether the timestamps can be an index with this frequency"""
    return ix is not None and all(nxt(a, ix.freq, ix.tz) == b for a, b in zip(ix.lefts, ix.lefts[1:]))


def valid(ix):
    """whether it is a valid index for a portfolio line"""
    if not regular(ix):
        return False
    w = [to_wall(x, ix.tz) for x in ix.lefts]
    if w[0].minute:
        return False
    if rank(ix.freq) < 2:
        return w[0].time() == to_wall(ix.rights[-1], ix.tz).time() and all(x.minute == 0 or ix.freq == "15min" for x in w)
    return len({x.time() for x in w}) == 1 and len({x.minute for x in w}) == 1


# -- frames -------------------------------------------------------------------------------


def make(ctx, what, index, n):
    a = reals(ctx, "a", n)
    if what == "series":
        return ser(a, index, name="data"), {"data": (a, None)}
    if what == "unit":
        return ser(a, index, name="data", unit="MW"), {"data": (a, "MW")}
    b = reals(ctx, "b", n)
    df = pd.DataFrame({"x": ser(a, index), "y": ser(b, index, unit="Eur/MWh")})
    return df, {"x": (a, None), "y": (b, "Eur/MWh")}


def check_frame(ctx, got, src, cols, conv, label):
    ctx.check(type(got) is type(src), f"{label} type")
    if isinstance(got, pd.Series):
        ctx.check(got.name == "data", f"{label} name")
        parts = {"data": got}
    else:
        ctx.check(list(got.columns) == list(cols), f"{label} columns")
        parts = {k: got[k] for k in cols}
    for k, (v, unit) in cols.items():
        ix, exp = conv(v)
        s = parts[k]
        ctx.check((type(s.array).__name__ == "PintArray") == (unit is not None), f"{label} {k} has unit")
        check_series(ctx, s, ix, exp, f"{label} {k}", unit)


SRC = []
for tz in (None, B, K):
    SRC += [
        dict(freq="h", start="2024-03-31", n=23 if tz == B else 24, tz=tz),
        dict(freq="h", start="2024-10-27", n=25 if tz == B else 24, tz=tz),
        dict(freq="15min", start="2024-03-31", n=92 if tz == B else 96, tz=tz),
        dict(freq="15min", start="2024-10-27", n=100 if tz == B else 96, tz=tz),
        dict(freq="h", start="2024-10-26 06:00", n=49 if tz == B else 48, tz=tz),
        dict(freq="D", start="2024-03-30 06:00", n=4, tz=tz),
        dict(freq="D", start="2024-10-26", n=3, tz=tz),
        dict(freq="MS", start="2024-03-01", n=3, tz=tz),
        dict(freq="QS-FEB", start="2024-02-01", n=3, tz=tz),
        dict(freq="YS", start="2023-01-01", n=2, tz=tz),
        dict(freq="YS-APR", start="2023-04-01", n=1, tz=tz),
    ]
SRC += [
    dict(freq="h", start="2024-03-10", n=23, tz=N),
    dict(freq="D", start="2024-11-02", n=3, tz=N),
    dict(freq="h", start="2024-04-06", n=49, tz="Australia/Sydney"),
    dict(freq="15min", start="2024-10-06", n=92, tz="Australia/Sydney"),
    dict(freq="h", start="2024-03-31", n=24, tz="UTC"),
    dict(freq="15min", start="2024-02-28 00:30", n=96, tz=K),
    dict(freq="D", start="2024-01-28 05:30", n=4, tz=K),
    dict(freq="h", start="2024-01-28 05:30", n=24, tz=K),
]
WHAT = ["series", "unit", "df"]


def cfgs(tier):
    out = []
    for i, s in enumerate(SRC):
        for j, t in enumerate([None, B, K, N, "UTC", "Africa/Lagos", "Europe/London", "Africa/Johannesburg"]):
            for k, w in enumerate(WHAT):
                if tier == "thorough" or (i + j + k) % 3 == 0 or (i < 4 and w == "series"):
                    out.append(dict(s, what=w, to=t))
    return out


@harness("V19", configs=cfgs)
def force(ctx, c):
    """force_aware and force_agnostic"""
    ix = mkix(c)
    for floating in (True, False) if c["to"] and c["tz"] not in (None, c["to"]) else (True,):
        fr, cols = make(ctx, c["what"], ix.pd(), len(ix))
        lbl = f"to {c['to']} floating={floating}"
        conv = lambda v: convert(ix, v, "aware" if c["to"] else "agnostic", c["to"], floating)
        call = lambda x: pf.force_aware(x, c["to"], floating=floating) if c["to"] else pf.force_agnostic(x)
        tgt = conv(cols[list(cols)[0]][0])[0]
        if not regular(tgt):
            if tgt is not None and rank(ix.freq) > 2:
                continue  # start of month, but at various times of day
            ctx.check(raises(lambda: call(fr), ValueError), f"{lbl} impossible is refused")
            continue
        got = call(fr)
        check_frame(ctx, got, fr, cols, conv, lbl)
        again = call(got)
        if floating:
            check_frame(ctx, again, fr, cols, lambda v: convert(*conv(v), "aware" if c["to"] else "agnostic", c["to"], True), lbl + " twice")
        # frequency not set, but can be inferred
        if len(ix) > 2 and rank(ix.freq) < 4:
            got = call(fr.set_axis(pd.DatetimeIndex(fr.index, freq=None)))
            check_frame(ctx, got, fr, cols, conv, lbl + " without freq")


@harness("V19", configs=lambda t: [dict(s, what="unit") for s in SRC if s["tz"]])
def roundtrip(ctx, c):
    """to agnostic (or fixed-offset time zone) and back"""
    ix = mkix(c)
    fr, cols = make(ctx, c["what"], ix.pd(), len(ix))
    back = pf.force_aware(pf.force_agnostic(fr), c["tz"])
    v = cols["data"][0]
    first = {}
    for x, a in zip(ix.lefts, v):
        first.setdefault(to_wall(x, ix.tz), a)
    exp = [first[to_wall(x, ix.tz)] for x in ix.lefts]
    check_series(ctx, back, ix, exp, "agnostic and back", "MW")
    if rank(ix.freq) < 2:  # fixed instants: lossless
        back = pf.force_aware(pf.force_aware(fr, "UTC", floating=False), c["tz"], floating=False)
        check_series(ctx, back, ix, v, "utc and back", "MW")


def present(ix, how):
    """-> index as delivered by the user, the timeline being the delivery periods ix"""
    if how == "left":
        return ix.pd()
    if how == "left nofreq":
        return pd.DatetimeIndex(ix.pd(), freq=None)
    if how == "text":
        return pd.Index([str(x) for x in ix.pd()])
    if how == "right":
        i = pd.DatetimeIndex(ix.rights) if ix.tz is None else pd.DatetimeIndex(ix.rights, tz="UTC").tz_convert(ix.tz)
        return i
    if how == "local":  # wall time
        return pd.DatetimeIndex([to_wall(x, ix.tz) for x in ix.lefts])
    if how == "local right A":
        return pd.DatetimeIndex([to_wall(x, ix.tz) + (to_wall(ix.rights[-1], ix.tz) - to_wall(ix.lefts[-1], ix.tz)) for x in ix.lefts])
    if how == "local right B":
        return pd.DatetimeIndex([to_wall(x, ix.tz) for x in ix.rights])
    raise ValueError(how)


def std_cfgs(tier):
    out = []
    k = 0
    for i, s in enumerate(SRC):
        pres = ["left", "left nofreq", "right"]
        if s["tz"] is None:
            pres.append("text")
        if s["tz"] and s["freq"] in ("h", "15min"):
            pres += ["local", "local right A", "local right B"]
        for j, p in enumerate(pres):
            if s["n"] < 3 and p != "left":
                continue  # frequency cannot be inferred
            if s["freq"][:2] in ("QS", "YS") and p != "left":
                continue
            for f in [(None, None), ("agnostic", None), ("aware", B), ("aware", K), ("aware", N), ("aware", "Africa/Lagos"), ("aware", "Europe/London")]:
                for w in WHAT:
                    k += 1
                    if tier == "thorough" or k % 4 == 0 or (p.startswith("local") and k % 2):
                        out.append(dict(s, what=w, present=p, force=f[0], to=f[1], floating=bool(k // 4 % 2)))
    return out


@harness("V19", configs=std_cfgs)
def standardize(ctx, c):
    ix = mkix(c)
    p = c["present"]
    index = present(ix, p)
    fr, cols = make(ctx, c["what"], index, len(ix))
    kw = dict(tz=c["to"], floating=c["floating"])
    bound = "right" if "right" in p else "left"
    src = lambda v: (ix, v)
    if p.startswith("local"):  # naive input with DST: time zone is needed
        has_dst = len({b - a for a, b in zip(index, index[1:])}) > 1
        if not has_dst:
            naive = Ix(ix.freq, None, [to_wall(x, ix.tz) for x in ix.lefts])
            src = lambda v: (naive, v)
        else:
            if c["to"] != c["tz"] or c["force"] is None:
                kw["tz"] = c["tz"]  # time zone to interpret the values in
            if c["force"] is None:
                src = lambda v: agnostic(ix, v)
    conv = lambda v: convert(*src(v), c["force"], kw["tz"], c["floating"])
    tgt = conv(cols[list(cols)[0]][0])[0]
    call = lambda x, b: pf.standardize(x, c["force"], b, **kw)
    if not valid(tgt):
        ctx.check(raises(lambda: call(fr, bound), ValueError), "invalid index is refused")
        return
    got = call(fr, bound)
    check_frame(ctx, got, fr, cols, conv, "standardized")
    ctx.check(got.index.name == "ts_left", "name of index")
    again = call(got, "left")
    check_frame(ctx, again, got, cols, conv, "standardized again")


@harness("V19", configs=lambda t: [dict(s, what="series") for s in (SRC[0], SRC[11], SRC[13], SRC[6], SRC[7], SRC[29])])
def refused(ctx, c):
    ix = mkix(c)
    fr, _ = make(ctx, "series", ix.pd(), len(ix))
    n = len(ix)
    if n > 3:
        gap = fr.iloc[[k for k in range(n) if k != n // 2]]
        for f, t in ((None, None), ("agnostic", None), ("aware", c["tz"] or B)):
            ctx.check(raises(lambda: pf.standardize(gap, f, tz=t), ValueError), f"gap, {f}")
        ctx.check(raises(lambda: pf.force_agnostic(gap), ValueError), "gap, force_agnostic")
        ctx.check(raises(lambda: pf.force_aware(gap, B), ValueError), "gap, force_aware")
    one = fr.iloc[[0]].set_axis(pd.DatetimeIndex(fr.index[:1], freq=None))
    ctx.check(raises(lambda: pf.standardize(one), ValueError), "single value without frequency")
    ctx.check(raises(lambda: pf.force_aware(fr, None), ValueError), "aware without time zone")
    ctx.check(raises(lambda: pf.standardize(fr, "something"), ValueError), "unknown force")
    if rank(ix.freq) < 2:
        part = fr.iloc[1:]
        ctx.check(raises(lambda: pf.standardize(part), ValueError), "partial day at start")
        part = fr.iloc[:-1]
        ctx.check(raises(lambda: pf.standardize(part), ValueError), "partial day at end")
        odd = fr.set_axis(fr.index + pd.Timedelta(minutes=30 if ix.freq == "h" else 7))
        ctx.check(raises(lambda: pf.standardize(odd), ValueError), "not at full hour")
    if ix.freq == "D" and n > 2:
        odd = fr.set_axis(fr.index + pd.Timedelta(minutes=30))
        ctx.check(raises(lambda: pf.standardize(odd), ValueError), "days not at full hour")
