"""Concrete index shapes used by the harnesses (values stay symbolic)."""
B = "Europe/Berlin"
K = "Asia/Kolkata"
N = "America/New_York"
U = "UTC"
S = "Australia/Sydney"  # changes 7 April and 6 October 2024
L = "Australia/Lord_Howe"  # same days, by half an hour
# DST changes 2024: 31 March, 27 October.

MS2 = dict(freq="MS", start="2024-01-01", n=2)
MS3 = dict(freq="MS", start="2024-02-01", n=3)
MS3B = dict(freq="MS", start="2024-02-01", n=3, tz=B)
MS1B = dict(freq="MS", start="2024-10-01", n=1, tz=B)
D2 = dict(freq="D", start="2024-03-30", n=2, tz=B)
D3B6 = dict(freq="D", start="2024-03-30 06:00", n=3, tz=B)
D3 = dict(freq="D", start="2024-02-28", n=3)
QS2B = dict(freq="QS", start="2024-01-01", n=2, tz=B)
QF2 = dict(freq="QS-FEB", start="2023-11-01", n=2)
YS2 = dict(freq="YS", start="2023-01-01", n=2)
YA2 = dict(freq="YS-APR", start="2023-04-01", n=2, tz=B)
H23 = dict(freq="h", start="2024-03-31", n=23, tz=B)
H25 = dict(freq="h", start="2024-10-27", n=25, tz=B)
H24 = dict(freq="h", start="2024-02-29 06:00", n=24)
H24K = dict(freq="h", start="2024-02-29", n=24, tz=K)
Q96 = dict(freq="15min", start="2024-02-29", n=96)
Q92 = dict(freq="15min", start="2024-03-31", n=92, tz=B)

SMALL = [MS2, D3B6, QF2]
ALL = [MS3, MS3B, MS1B, D2, D3B6, D3, QS2B, QF2, YS2, YA2, H23, H25, H24, H24K]


def prod(*lists):
    """cartesian product of lists of dicts, merged"""
    out = [{}]
    for l in lists:
        out = [dict(a, **b) for a in out for b in l]
    return out


def opts(key, *values):
    return [{key: v} for v in values]


def alike(freq, start, n):
    """indices that are easily mistaken for one another: same local start or same instants in other
    time zones, another year, start-of-day or number of periods"""
    y = int(start[:4])
    out = [dict(freq=freq, start=start, n=n, tz=z) for z in (None, B, "Africa/Tunis", K, U)]
    out.append(dict(freq=freq, start=f"{y - 1}{start[4:]}", n=n, tz=B))
    out.append(dict(freq=freq, start=f"{start} 06:00", n=n, tz=B))
    out.append(dict(freq=freq, start=start, n=n + 1, tz=B))
    return out
