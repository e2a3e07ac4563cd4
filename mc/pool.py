"""Shared alphabets: zones, transitions, boundary instants."""
from __future__ import annotations

import functools
import os

from . import cal, tzmodel
from .cal import DAY_NS, DAY_S, EPOCH_NS, EPOCH_S, NS

ZONES_DIR = tzmodel.ZONEINFO


def s1(y, mo=1, d=1, h=0, mi=0, s=0):
    return cal.local_ns(y, mo, d, h, mi, s) // NS


# the standard library's Python zoneinfo never sets the fold for the only transition of a zone (its C implementation does)
NO_SINGLE = os.environ.get("VERIF_ENV") == "stdlib"


@functools.lru_cache(None)
def zone_index():
    return [x for x in tzmodel.all_zones() if not NO_SINGLE or len(tzmodel.Zone(*x[:2]).trans) != 1]


@functools.lru_cache(None)
def zone(key):
    for k, p, al in zone_index():
        if k == key or key in al:
            z = tzmodel.Zone(k, p)
            z.key = key
            return z
    raise KeyError(key)


def keys():
    return [k for k, _, _ in zone_index()]


# zones whose rules exercise different features
FEATURED = [
    "UTC",
    "Europe/Amsterdam",
    "America/New_York",
    "Europe/Dublin",  # negative DST
    "Australia/Lord_Howe",  # 30 minute DST
    "Pacific/Apia",  # skipped a day in 2011
    "Africa/Casablanca",
    "America/St_Johns",
    "Asia/Kathmandu",
    "America/Sao_Paulo",  # gap at midnight
    "Antarctica/Troll",  # 2 hour DST
    "Africa/Monrovia",  # sub-minute offsets
    "America/Santiago",
    "Asia/Gaza",
    "Africa/Cairo",
    "America/Nuuk",
    "Asia/Tehran",
    "Pacific/Kwajalein",
]
FEATURED = [k for k in FEATURED if os.path.exists(os.path.join(ZONES_DIR, k))]

FAR_YEARS = (2101, 2399, 2400, 4000, 9998)


def transitions(z, lo=None, hi=None, far=True):
    """all transitions through 2100 and those of a few far years"""
    out = z.transitions_between(
        tzmodel.LO_S if lo is None else lo, s1(2101) - 1 if hi is None else hi
    )
    if far and hi is None:
        for y in FAR_YEARS:
            out += z.transitions_between(s1(y), s1(y + 1) - 1)
    return out


@functools.lru_cache(None)
def tails():
    """one zone for each rule that goes on for ever"""
    out = {}
    for k in keys():
        tr = zone(k).transitions_between(s1(2400), s1(2407) - 1)
        if tr:
            out.setdefault(tuple(tr), k)
    return sorted(out.values())


def recent(z, y0=1965, y1=2040):
    return transitions(z, s1(y0), s1(y1), far=False)


def edge_instants(z, tr):
    """UTC ns around transitions"""
    for t, b, a in tr:
        T = t * NS
        d = abs(a - b) * NS
        for u in (T - d - 1, T - d, T - 1, T, T + 1, T + d - 1, T + d, T + d // 2, T - d // 2):
            yield u


def edge_locals(z, tr):
    """local ns around the transition's fold or gap"""
    for t, b, a in tr:
        lo, hi = (t + min(a, b)) * NS, (t + max(a, b)) * NS
        for x in (lo - NS, lo - 1, lo, lo + 1, (lo + hi) // 2 // NS * NS, hi - 1, hi, hi + 1):
            yield x


def chunk(xs, n):
    """n interleaved slices"""
    return [xs[i::n] for i in range(n) if xs[i::n]]


BOUNDARY_UTC = sorted(
    {
        cal.local_ns(*f) + e
        for f in [
            (1970, 1, 1),
            (1969, 12, 31, 23, 59, 59),
            (2000, 1, 1),
            (2024, 2, 29, 12, 30),
            (2038, 1, 19, 3, 14, 7),
            (1901, 12, 13, 20, 45, 52),
            (2106, 2, 7, 6, 28, 15),
            (1900, 1, 1),
            (2023, 3, 26, 1),
            (2023, 10, 29, 1),
            (2023, 11, 5, 6),
            (2024, 12, 31, 23, 59, 59),
            (1583, 1, 1),
            (3, 3, 3, 3, 3, 3),
            (9998, 6, 1),
        ]
        for e in (-1, 0, 1, 999, 1000, 999_999_999)
    }
)
EXTREME_UTC = [0, 1, NS, DAY_NS - 1, DAY_NS, DAY_NS + 1, cal.LOCAL_MAX - DAY_NS, cal.LOCAL_MAX - DAY_NS + 1, cal.LOCAL_MAX - NS, cal.LOCAL_MAX - 1, cal.LOCAL_MAX]
OFFSETS = [0, 3600, -3600, 5 * 3600 + 1800, -(4 * 3600 + 30 * 60), 45 * 60, 1, -1, 3600 + 30 * 60 + 15, 14 * 3600, -12 * 3600, 86399, -86399, 23 * 3600 + 59 * 60]


# zones used as the system timezone: every kind of transition (repeated and skipped midnights, half-hour and two-hour shifts, negative
# DST, a changed date line, sub-minute and one-sided histories)
SYSTEM = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia", "UTC", "America/Havana",
          "Atlantic/Azores", "Europe/Dublin", "Africa/Casablanca", "Antarctica/Troll", "Africa/Monrovia", "Asia/Gaza", "America/Asuncion",
          "Asia/Kathmandu", "America/Caracas"]


def system(tier):
    return SYSTEM + [k for k in FEATURED if k not in SYSTEM] if tier == "thorough" else SYSTEM
