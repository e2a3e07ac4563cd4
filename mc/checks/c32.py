"""Printed forms of all values"""
from __future__ import annotations

import itertools
import os
import time

from whenever import Date, MonthDay, YearMonth

from .. import cal, pool, synth, vals
from ..cal import DAY_NS, HOUR_NS, MIN_NS, NS
from ..vals import Op, chk, mkDD, mkDTD, mkI, mkL, mkO, mkS, mkT, mkTD
from .c15 import FRACS

ID = "C32"
TITLE = "Printed forms of a value show exactly that value"
SYS = ["Europe/Amsterdam", "America/New_York", "Africa/Monrovia"]


def bounds(tier):
    return {
        "forms": "str, repr, f-string, format(), both % codes, repr of a containing list, format_common_iso",
        "fractions": "512 zero/nonzero patterns of the nine decimals, every type that has them",
        "offsets": "all 172799 whole-second offsets" if tier == "thorough" else "every 7th of the 172799 whole-second offsets, and all whole minutes",
        "zones": "every zone and alias around its last 6 (thorough: all) transitions",
        "dates": "every day" if tier == "thorough" else "every 23rd day",
        "year-months, month-days": "all",
        "time deltas": "34 hour counts up to the maximum x minutes x seconds x fractions x signs",
        "date and date-time deltas": "17 month x 12 day (x 12 time) parts, both signs",
    }


def shards(tier):
    synth.install(tier)
    return [("zones", c) for c in pool.chunk(pool.keys(), 16)] + [("alias", c) for c in pool.chunk([(k, a) for k, _, al in pool.zone_index() for a in al], 4)] + [
        ("offsets", i) for i in range(8)] + [("fracs", i) for i in range(4)] + [("dates", i) for i in range(4)] + [("yms", i) for i in range(4)] + [("tdeltas", i) for i in range(8)] + [
        ("deltas",)] + [("system", k) for k in SYS]


FORMS = Op("(str(x), repr(x), f'{x}', format(x), '%s' % (x,), '%r' % (x,), repr([x, {x: x}]), x.format_common_iso())", "x")


def forms(ctx, x, iso, inner=None):
    """iso: the ISO text; inner: what repr shows"""
    r = f"{type(x).__name__}({inner or iso.replace('T', ' ', 1)})"
    ctx.states += 1
    chk(ctx, FORMS, (iso, r, iso, iso, iso, r, f"[{r}, {{{r}: {r}}}]", iso), x)


def exact(ctx, u, off):
    loc = u + off * NS
    if cal.in_range(u) and cal.in_range(loc):
        forms(ctx, mkO(u, off), cal.local_str(loc) + cal.off_str(off))


def zoned(ctx, key, u, off):
    loc = u + off * NS
    if cal.in_range(u) and cal.in_range(loc):
        forms(ctx, mkI(u).to_tz(key), cal.local_str(loc) + cal.off_str(off) + f"[{key}]")


def edges(ctx, z, tr, key):
    for t, b, a in tr:
        for u in (t * NS - 1, t * NS, t * NS + abs(b - a) * NS, (t - abs(b - a)) * NS + 120):
            zoned(ctx, key, u, z.offset(u // NS))


def run_zones(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z)
        edges(ctx, z, tr if ctx.thorough else tr[-6:], k)
        for u in pool.EXTREME_UTC + pool.BOUNDARY_UTC[::5]:
            zoned(ctx, k, u, z.offset(u // NS))
    ctx.sample(f"ZonedDateTime in {k}")


def run_alias(ctx, ps):
    for k, a in ps:
        z = pool.zone(k)
        edges(ctx, z, pool.recent(z)[-2:], a)
        u = pool.BOUNDARY_UTC[3]
        zoned(ctx, a, u, z.offset(u // NS))
    ctx.sample(f"ZonedDateTime in {a}")


def run_offsets(ctx, i):
    base = cal.local_ns(2023, 10, 29, 2, 30, 15)
    for o in sorted({*range(-86399, 86400, 1 if ctx.thorough else 7), *range(-86340, 86400, 60)})[i::8]:
        exact(ctx, base, o)
    for u in (pool.BOUNDARY_UTC + pool.EXTREME_UTC)[i::8]:
        for o in pool.OFFSETS:
            exact(ctx, u, o)
        forms(ctx, mkI(u), cal.local_str(u) + "Z")
        forms(ctx, mkL(u), cal.local_str(u))
    ctx.sample(f"OffsetDateTime with offset {cal.off_str(o)}")


def run_fracs(ctx, i):
    base = cal.local_ns(2020, 8, 15, 23, 12)
    for f in FRACS[i::4]:
        for s in (0, 9):
            u = base + s * NS + f
            forms(ctx, mkI(u), cal.local_str(u) + "Z")
            forms(ctx, mkL(u), cal.local_str(u))
            exact(ctx, u, -(3 * 3600 + 29 * 60 + 44))
            zoned(ctx, "Europe/Amsterdam", u, 7200)
            for tod in (u % DAY_NS, s * NS + f, 12 * HOUR_NS + f):
                forms(ctx, mkT(tod), cal.tod_str(tod))
            forms(ctx, mkDTD(0, 0, s * NS + f), *[cal.dtdelta_iso(0, 0, s * NS + f)] * 2)
            forms(ctx, mkDTD(0, -3, -s * NS - f), *[cal.dtdelta_iso(0, -3, -s * NS - f)] * 2)
    ctx.sample(f"fraction {f:09d} in every type")


def run_dates(ctx, i):
    for n in [*range(i, cal.NDAYS, 4 if ctx.thorough else 4 * 23), 0, cal.NDAYS - 1]:
        y, m, d = cal.civil(n)
        iso = cal.date_str(y, m, d)
        forms(ctx, Date(y, m, d), iso)
        if n % 3 == 0:
            forms(ctx, mkL(n * DAY_NS), iso + "T00:00:00")
            forms(ctx, mkI(n * DAY_NS + NS), iso + "T00:00:01Z")
    for s in range(i, 86400, 4 if ctx.thorough else 4 * 7):
        forms(ctx, mkT(s * NS), cal.tod_str(s * NS))
    ctx.sample(f"Date {iso}, times of whole seconds")


def run_yms(ctx, i):
    for y in range(1 + i, 10000, 4):
        for m in range(1, 13):
            forms(ctx, YearMonth(y, m), f"{y:04d}-{m:02d}")
    if i == 0:
        for m in range(1, 13):
            for d in range(1, cal.dim(2000, m) + 1):
                forms(ctx, MonthDay(m, d), f"--{m:02d}-{d:02d}")
    ctx.sample(f"YearMonth({y}, {m}); all month-days")


HOURS = sorted({0, 1, 9, 10, 11, 23, 24, 25, 99, 100, 101, 999, 1000, 9999, 10_000, 99_999, 100_000, 999_999, 1_000_000, 9_999_999, 10_000_000, 80_000_000, cal.MAX_TDELTA // HOUR_NS - 1, cal.MAX_TDELTA // HOUR_NS})
TD_FRACS = [0, 1, 10, 999, 1000, 500_000_000, 999_999_999, 120_000_000, 123_456_789, 100_000_001, 90]


def td_repr(ns):
    a = abs(ns)
    return ("-" if ns < 0 else "") + f"{a // HOUR_NS:02d}:{a // MIN_NS % 60:02d}:{a // NS % 60:02d}" + cal.frac_str(a % NS)


def run_tdeltas(ctx, i):
    for h in HOURS[i::8]:
        for m, s, f, sign in itertools.product((0, 1, 9, 10, 59), (0, 1, 9, 10, 59), TD_FRACS, (1, -1)):
            ns = sign * (h * HOUR_NS + m * MIN_NS + s * NS + f)
            if abs(ns) <= cal.MAX_TDELTA:
                forms(ctx, mkTD(ns), cal.tdelta_iso(ns), td_repr(ns))
    for f in FRACS[i::8]:
        for ns in (f, -f, 59 * NS + f, -HOUR_NS - f):
            forms(ctx, mkTD(ns), cal.tdelta_iso(ns), td_repr(ns))
    ctx.sample(f"TimeDelta({td_repr(ns)})")


def run_deltas(ctx):
    mos = [0, 1, 2, 9, 10, 11, 12, 13, 23, 24, 25, 119, 120, 1199, 12_000, cal.MAX_MONTHS - 1, cal.MAX_MONTHS]
    ds = [0, 1, 6, 7, 8, 30, 31, 365, 366, 999, cal.MAX_DAYS - 1, cal.MAX_DAYS]
    ts = [0, 1, 1000, 999_999_999, NS, 59 * NS, MIN_NS, HOUR_NS, HOUR_NS + 1, DAY_NS, 100 * HOUR_NS + 61 * NS + 120, cal.MAX_TDELTA]
    for mo, d, s in itertools.product(mos, ds, (1, -1)):
        iso = cal.ddelta_iso(s * mo, s * d)
        forms(ctx, mkDD(s * mo, s * d), iso, iso)
        for t in ts:
            iso = cal.dtdelta_iso(s * mo, s * d, s * t)
            forms(ctx, mkDTD(s * mo, s * d, s * t), iso, iso)
    ctx.sample(f"DateTimeDelta({iso})")


def run_system(ctx, key):
    os.environ["TZ"] = key
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {key!r}; time.tzset()"
    z = pool.zone(key)
    for t, b, a in pool.recent(z, 1950)[-30:]:
        for u in (t * NS - 1, t * NS, t * NS + abs(b - a) * NS, (t - abs(b - a)) * NS + 120):
            o = z.offset(u // NS)
            forms(ctx, mkS(u), cal.local_str(u + o * NS) + cal.off_str(o))
    for f in FRACS[::3]:
        u = cal.local_ns(2020, 8, 15, 23, 12) + f
        o = z.offset(u // NS)
        forms(ctx, mkS(u), cal.local_str(u + o * NS) + cal.off_str(o))
    ctx.sample(f"SystemDateTime in {key}")


def run(ctx, shard):
    vals.EXTRA_SETUP = ""
    globals()["run_" + shard[0]](ctx, *shard[1:])
