"""Independent reference semantics (does not use portfolyo, and only the standard library
for calendar arithmetic).

Instants are naive ``datetime`` in UTC (tz-aware timelines) or naive wall-clock (tz None)."""
from __future__ import annotations

import datetime as dt
import math
from zoneinfo import ZoneInfo

import pandas as pd

from . import core
from .core import SymReal, ssum

NAN = math.nan
UTC = dt.timezone.utc
MONTHS = {m: i for i, m in enumerate("JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split(), 1)}


def to_utc(wall: dt.datetime, tz) -> dt.datetime:
    """wall-clock (naive; fold=0) -> UTC instant (naive)."""
    if tz is None:
        return wall
    return wall.replace(tzinfo=ZoneInfo(tz)).astimezone(UTC).replace(tzinfo=None)


def to_wall(inst: dt.datetime, tz) -> dt.datetime:
    if tz is None:
        return inst
    return inst.replace(tzinfo=UTC).astimezone(ZoneInfo(tz)).replace(tzinfo=None)


def stamp(inst, tz) -> pd.Timestamp:
    t = pd.Timestamp(inst)
    return t if tz is None else t.tz_localize("UTC").tz_convert(tz)


def parse_freq(freq):
    """-> (unit, anchor-month)"""
    if freq in ("15min", "h", "D"):
        return freq, None
    base, _, a = freq.partition("-")
    if base == "MS":
        return "MS", None
    if base in ("QS", "YS", "AS"):
        return base.replace("AS", "YS"), MONTHS[a or "JAN"]
    raise ValueError(freq)


RANK = {"15min": 0, "h": 1, "D": 2, "MS": 3, "QS": 4, "YS": 5}


def rank(freq):
    return RANK[parse_freq(freq)[0]]


def is_bound(wall: dt.datetime, freq, sod: dt.time) -> bool:
    u, a = parse_freq(freq)
    if wall.second or wall.microsecond:
        return False
    if u == "15min":
        return wall.minute % 15 == 0
    if u == "h":
        return wall.minute == 0
    if wall.time() != sod:
        return False
    if u == "D":
        return True
    if wall.day != 1:
        return False
    if u == "MS":
        return True
    if u == "QS":
        return wall.month % 3 == a % 3
    return wall.month == a


def nxt(inst: dt.datetime, freq, tz) -> dt.datetime:
    """right-bound instant of the period that starts at ``inst``."""
    u, _ = parse_freq(freq)
    if u == "15min":
        return inst + dt.timedelta(minutes=15)
    if u == "h":
        return inst + dt.timedelta(hours=1)
    w = to_wall(inst, tz)
    if u == "D":
        return to_utc(w + dt.timedelta(days=1), tz)
    k = {"MS": 1, "QS": 3, "YS": 12}[u]
    m = w.month - 1 + k
    return to_utc(w.replace(year=w.year + m // 12, month=m % 12 + 1), tz)


def first_bound_at_or_after(inst, freq, tz, sod):
    u, a = parse_freq(freq)
    if u in ("15min", "h"):
        step = dt.timedelta(minutes=15 if u == "15min" else 60)
        # boundaries are wall-clock aligned; all supported tz have 15-min-aligned offsets
        x = inst.replace(second=0, microsecond=0, minute=inst.minute // 15 * 15)
        while x < inst or not is_bound(to_wall(x, tz), freq, sod):
            x += dt.timedelta(minutes=15)
        return x
    d = to_wall(inst, tz).date() - dt.timedelta(days=1)
    while True:
        w = dt.datetime.combine(d, sod)
        if is_bound(w, freq, sod) and to_utc(w, tz) >= inst:
            return to_utc(w, tz)
        d += dt.timedelta(days=1)


class Ix:
    """Delivery periods."""

    def __init__(self, freq, tz, lefts, sod=None):
        self.freq, self.tz = freq, tz
        self.lefts = list(lefts)
        self.rights = [nxt(x, freq, tz) for x in self.lefts]
        self.sod = sod
        if sod is None and self.lefts:
            self.sod = to_wall(self.lefts[0], tz).time() if rank(freq) >= 2 else dt.time(0)

    @classmethod
    def make(cls, freq, start, n, tz=None, sod=None):
        s = dt.datetime.fromisoformat(start)
        x = to_utc(s, tz)
        lefts = []
        for _ in range(n):
            lefts.append(x)
            x = nxt(x, freq, tz)
        # sub-daily indices: start of day is the start's time of day
        return cls(freq, tz, lefts, sod or s.time())

    def __len__(self):
        return len(self.lefts)

    def hours(self, i):
        d = self.rights[i] - self.lefts[i]
        from fractions import Fraction

        return Fraction(int(d.total_seconds()), 3600)

    @property
    def durs(self):
        return [self.hours(i) for i in range(len(self))]

    def pd(self) -> pd.DatetimeIndex:
        """As a pandas index (with frequency)."""
        if self.tz is None:
            i = pd.DatetimeIndex(self.lefts)
        else:
            i = pd.DatetimeIndex(self.lefts, tz="UTC").tz_convert(self.tz)
        i = i.as_unit("ns") if hasattr(i, "as_unit") else i
        i.name = None
        return pd.DatetimeIndex(i, freq=self.freq) if len(i) else pd.DatetimeIndex([], tz=self.tz, freq=self.freq)

    def sub(self, positions):
        return Ix(self.freq, self.tz, [self.lefts[i] for i in positions], self.sod)

    def asfreq(self, freq):
        """(new Ix, for each new period the list of (old position, share of old period)).
        Downsampling: whole covered periods only.  Upsampling: all covering."""
        if rank(freq) >= rank(self.freq):  # longer (or same)
            out, groups = [], []
            if not len(self):
                return Ix(freq, self.tz, [], self.sod), []
            end = self.rights[-1]
            x = first_bound_at_or_after(self.lefts[0], freq, self.tz, self.sod)
            k = 0
            while nxt(x, freq, self.tz) <= end:
                y = nxt(x, freq, self.tz)
                while self.lefts[k] < x:
                    k += 1
                g = []
                while k < len(self) and self.rights[k] <= y:
                    g.append((k, 1))
                    k += 1
                out.append(x)
                groups.append(g)
                x = y
            return Ix(freq, self.tz, out, self.sod), groups
        out, groups = [], []
        from fractions import Fraction

        for k in range(len(self)):
            x = self.lefts[k]
            while x < self.rights[k]:
                y = nxt(x, freq, self.tz)
                out.append(x)
                groups.append(
                    [(k, Fraction(int((y - x).total_seconds()), int((self.rights[k] - self.lefts[k]).total_seconds())))]
                )
                x = y
        return Ix(freq, self.tz, out, self.sod), groups


def common(a: Ix, b: Ix):
    """positions (in a, in b) of common lefts"""
    pb = {x: j for j, x in enumerate(b.lefts)}
    return [(i, pb[x]) for i, x in enumerate(a.lefts) if x in pb]


# --------------------------------------------------------------------------------------
# Reference portfolio lines
# --------------------------------------------------------------------------------------

COLS = {"VOLUME": "q", "PRICE": "p", "REVENUE": "r", "COMPLETE": "qr"}


class Ref:
    """Flat or nested reference line.  q, r for volume / revenue, p for price-only lines.
    Complete lines: q and r, price r/q (unconstrained where q == 0 unless ``p`` given)."""

    def __init__(self, kind, ix, q=None, r=None, p=None, children=None):
        self.kind, self.ix, self.q, self.r, self.p, self.children = kind, ix, q, r, p, children

    @classmethod
    def nested(cls, children):
        cs = list(children.values())
        kind, ix = cs[0].kind, cs[0].ix
        n = len(ix)
        d = {}
        for c in "qr" if kind == "COMPLETE" else COLS[kind]:
            d[c] = [ssum([getattr(x, c)[i] for x in cs]) for i in range(n)]
        return cls(kind, ix, children=dict(children), **d)

    @property
    def flat(self):
        return self.children is None

    def map(self, f):
        """apply f to every flat leaf, rebuild"""
        if self.flat:
            return f(self)
        return Ref.nested({k: c.map(f) for k, c in self.children.items()})

    def flatten(self):
        return Ref(self.kind, self.ix, self.q, self.r, self.p if self.kind == "PRICE" else None)

    # -- operations
    def take(self, pos):
        def f(x):
            g = lambda l: None if l is None else [l[i] for i in pos]
            return Ref(x.kind, x.ix.sub(pos), g(x.q), g(x.r), g(x.p))

        return self.map(f)

    def scale(self, k):
        """k: scalar or list; price-only lines are scaled too; complete keep price"""

        def f(x):
            ks = k if isinstance(k, list) else [k] * len(x.ix)
            g = lambda l: None if l is None else [a * b for a, b in zip(l, ks)]
            return Ref(x.kind, x.ix, g(x.q), g(x.r), g(x.p) if x.kind == "PRICE" else x.p)

        return self.map(f)

    def add(self, o):
        """same kind"""
        if self.flat != o.flat:
            return self.flatten().add(o.flatten())
        if not self.flat:
            pos = common(self.ix, o.ix)
            ch = {}
            for k in list(self.children) + [k for k in o.children if k not in self.children]:
                if k in self.children and k in o.children:
                    ch[k] = self.children[k].add(o.children[k])
                elif k in self.children:
                    ch[k] = self.children[k].take([i for i, _ in pos])
                else:
                    ch[k] = o.children[k].take([j for _, j in pos])
            return Ref.nested(ch)
        pos = common(self.ix, o.ix)
        g = lambda a, b: None if a is None or b is None else [a[i] + b[j] for i, j in pos]
        return Ref(
            self.kind,
            self.ix.sub([i for i, _ in pos]),
            g(self.q, o.q),
            g(self.r, o.r),
            g(self.p, o.p) if self.kind == "PRICE" else None,
        )

    def asfreq(self, freq):
        def f(x):
            nix, groups = x.ix.asfreq(freq)
            up = rank(freq) < rank(x.ix.freq)
            g = lambda l: None if l is None else [ssum([l[k] * s for k, s in gr]) for gr in groups]
            p = None
            if x.kind == "PRICE":
                if up:
                    p = [x.p[gr[0][0]] for gr in groups]
                else:
                    p = [
                        ssum([x.p[k] * x.ix.hours(k) for k, _ in gr]) / nix.hours(j)
                        for j, gr in enumerate(groups)
                    ]
            return Ref(x.kind, nix, g(x.q), g(x.r), p)

        return self.map(f)

    def only(self, kind):
        """volume / revenue part"""
        c = COLS[kind]
        return self.map(lambda x: Ref(kind, x.ix, **{c: getattr(x, c)}))
