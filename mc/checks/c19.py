from __future__ import annotations

import copy
import datetime as dtm
import os
import pickle
import time
import zoneinfo
from datetime import date, datetime, timedelta, timezone, tzinfo

from whenever import Date, Instant, LocalDateTime, OffsetDateTime, SystemDateTime, Time, ZonedDateTime

from .. import cal, pool, synth, vals
from ..cal import DAY_NS, NS
from ..vals import Err, Op, RANGE, TYPE, VALUE, chk, eI, eL, eO, eS, eZ, mkI, mkL, mkO, mkS, mkT

ID = "C19"
TITLE = "Standard library conversions keep moment, fields, zone and fold both ways"

SYS = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe"]


def bounds(tier):
    return {
        "to stdlib": "every type at boundary and extreme moments; ZonedDateTime around every transition of every zone (quick: first 2 and last 20)",
        "from stdlib": "8 local times around each of those transitions x fold 0/1 (gaps and folds included) with ZoneInfo, fixed timezones, datetime subclasses, "
        "custom tzinfo with fold-dependent, sub-minute, sub-second and missing offsets",
        "dates and times": "every date (quick: every 31st), every microsecond class",
        "timedelta": "44 day counts up to both ends of the TimeDelta and timedelta ranges x 9 seconds x 16 microseconds, both directions, subclasses; outside the range: refused",
    }


def shards(tier):
    synth.install(tier)
    return [("zones", c) for c in pool.chunk(pool.keys(), 48)] + [("synth", c) for c in pool.chunk(synth.specs(tier), 8)] + [("system", k) for k in SYS] + [
        ("fixed", i) for i in range(8)] + [("dates", i) for i in range(8)] + [("custom",), ("bad",), ("deltas",)]


class SubDT(datetime):
    """a subclass with behaviour of its own"""

    def __str__(self):
        return "sub"

    isoformat = __str__

    def __hash__(self):
        return 5


class SubDate(date):
    def __str__(self):
        return "sub"

    isoformat = __str__

    def __hash__(self):
        return 5

    def isoweekday(self):
        return 0


class SubTime(dtm.time):
    def __str__(self):
        return "sub"

    isoformat = __str__

    def __hash__(self):
        return 5


def plain(v, same):
    """is the value free of what it was made from? `same` is an equal value made otherwise"""
    p = v.py_datetime() if hasattr(v, "py_datetime") else v.py_date() if hasattr(v, "py_date") else v.py_time()
    out = type(p) in (datetime, date, dtm.time) and type(getattr(p, "tzinfo", None)) in (type(None), timezone, zoneinfo.ZoneInfo)
    return out and v == same and same == v and hash(v) == hash(same) and (repr(v), str(v)) == (repr(same), str(same)) and pickle.dumps(v) == pickle.dumps(same)


class Tz(tzinfo):
    """custom tzinfo: offset depends on fold"""

    def __init__(self, a, b=None):
        self.a, self.b = a, a if b is None else b

    def utcoffset(self, d):
        return self.b if d.fold else self.a

    def dst(self, d):
        return timedelta(0)

    def tzname(self, d):
        return "custom"

    def __repr__(self):
        return f"Tz({self.a!r}, {self.b!r})"


def fields(ns):
    y, mo, d, h, mi, s, sub = cal.fields(ns)
    return y, mo, d, h, mi, s, sub // 1000


def std(d):
    """what a stdlib datetime says"""
    o = d.utcoffset()
    return (type(d) is datetime, d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, None if o is None else o // timedelta(microseconds=1), getattr(d.tzinfo, "key", None))


ENV = dict(std=std, plain=plain, datetime=dtm, SubDT=SubDT, SubDate=SubDate, SubTime=SubTime, Tz=Tz, timezone=timezone, timedelta=timedelta)
SETUP = "from mc.checks.c19 import std, plain, SubDT, SubDate, SubTime, Tz; from datetime import timezone, timedelta"
PY = Op("std(x.py_datetime())", "x", **ENV)
BACK = {t: Op(f"{t.__name__}.from_py_datetime(x.py_datetime())", "x") for t in (Instant, OffsetDateTime, ZonedDateTime, SystemDateTime, LocalDateTime)}
FROM = {t: Op(f"{t.__name__}.from_py_datetime(d)", "d") for t in BACK}
PLAIN = {t: Op(f"plain({t.__name__}.from_py_datetime(d), {m})", "d e", **ENV) for t, m in ((Instant, "e.instant()"), (OffsetDateTime, "e"), (LocalDateTime, "e"), (ZonedDateTime, "e.to_tz(d.tzinfo.key)"))}
EPOCH = Op("(x.py_datetime() - datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)", "x", **ENV)


def to_py(ctx, x, local, off, key, e, full=True):
    """e: the view of x with its sub-microsecond part dropped"""
    ctx.states += 1
    chk(ctx, PY, (True, *fields(local), None if off is None else off * 10**6, key), x, setup=SETUP)
    chk(ctx, BACK[type(x)], e, x)
    if full and off is not None:
        chk(ctx, EPOCH, (local - off * NS) // 1000, x)


def floor_us(ns):
    return ns - ns % 1000


def all_to(ctx, u, off):
    """offset, instant and local value at u"""
    f = floor_us(u)
    to_py(ctx, mkI(u), u, 0, None, eI(f))
    to_py(ctx, mkL(u), u, None, None, eL(f))
    if cal.in_range(u + off * NS):
        to_py(ctx, mkO(u, off), u + off * NS, off, None, eO(f, off))


def all_from(ctx, d, local, off, key=None, zone=None):
    """aware stdlib datetime d saying `local` at `off`"""
    ctx.states += 1
    u = local - off * NS
    ok = cal.in_range(u)
    chk(ctx, FROM[Instant], eI(u) if ok else RANGE, d, setup=SETUP)
    chk(ctx, FROM[OffsetDateTime], eO(u, off) if ok else RANGE, d, setup=SETUP)
    chk(ctx, FROM[SystemDateTime], eS(u, off) if ok else RANGE, d, setup=SETUP)
    chk(ctx, FROM[LocalDateTime], VALUE, d, setup=SETUP)
    if zone is None:
        chk(ctx, FROM[ZonedDateTime], VALUE, d, setup=SETUP)
    else:
        o2 = zone.offset(u // NS) if ok else 0
        chk(ctx, FROM[ZonedDateTime], eZ(key, u, o2) if ok and cal.in_range(u + o2 * NS) else RANGE, d, setup=SETUP)
        if ok and d.fold == 0 and type(d) is SubDT and o2 == off:
            chk(ctx, PLAIN[ZonedDateTime], True, d, mkO(u, off), setup=SETUP)
    if ok and type(d) is SubDT and off % 60 == 0:
        for t in (Instant, OffsetDateTime):
            chk(ctx, PLAIN[t], True, d, mkO(u, off), setup=SETUP)


def zone_values(ctx, z, tr, full):
    zi = zoneinfo.ZoneInfo(z.key)
    for u in pool.edge_instants(z, tr):
        off = z.offset(u // NS)
        if cal.in_range(u) and cal.in_range(u + off * NS):
            to_py(ctx, mkI(u).to_tz(z.key), u + off * NS, off, z.key, eZ(z.key, floor_us(u), off), full)
            chk(ctx, NOFOLD, (0, 0, 0, 0), mkI(u).to_tz(z.key))
    for n, local in enumerate(pool.edge_locals(z, tr)):
        local = floor_us(local)
        if not cal.in_range(local - DAY_NS) or not cal.in_range(local + DAY_NS):
            continue
        k, sol = z.solve(local // NS)
        for fold in (0, 1):
            # PEP 495: in a gap fold=0 is the offset before, fold=1 the one after
            off = (local // NS - sol[min(fold, len(sol) - 1)]) if k == "ok" else sol[1 + fold]
            d = datetime(*fields(local), tzinfo=zi, fold=fold)
            all_from(ctx, d, local, off, z.key, z)
            if n % 8 == 4:
                all_from(ctx, SubDT(*fields(local), tzinfo=zi, fold=fold), local, off, z.key, z)


def run_zones(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z, far=False)
        zone_values(ctx, z, tr if ctx.thorough else tr[:2] + tr[-20:], True)
        for u in pool.BOUNDARY_UTC[::5] + pool.EXTREME_UTC:
            off = z.offset(u // NS)
            if cal.in_range(u + off * NS):
                to_py(ctx, mkI(u).to_tz(k), u + off * NS, off, k, eZ(k, floor_us(u), off))
    ctx.sample(f"{k}: datetimes in and around gaps and folds, fold 0 and 1, to and from every type")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        zone_values(ctx, z, z.transitions_between(pool.s1(1960), pool.s1(2026))[-2:], True)
    ctx.sample(f"synthetic {sp}")


def run_system(ctx, k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    z = pool.zone(k)
    for u in pool.edge_instants(z, pool.recent(z, 1970, 2036)):
        off = z.offset(u // NS)
        to_py(ctx, mkS(u), u + off * NS, off, None, eS(floor_us(u), off))
        chk(ctx, NOFOLD, (0, 0, 0, 0), mkS(u))
    ctx.sample(f"SystemDateTime under TZ={k}")


def run_fixed(ctx, i):
    us = sorted({*pool.BOUNDARY_UTC, *pool.EXTREME_UTC})
    for u in us[i::8]:
        for o in pool.OFFSETS:
            all_to(ctx, u, o)
            local = floor_us(u + o * NS)
            for loc in {local, floor_us(u)}:
                if cal.in_range(loc):
                    for fold in (0, 1):
                        all_from(ctx, datetime(*fields(loc), tzinfo=timezone(timedelta(seconds=o)), fold=fold), loc, o)
                    all_from(ctx, SubDT(*fields(loc), tzinfo=timezone(timedelta(seconds=o))), loc, o)
        f = floor_us(u)
        for d in (datetime(*fields(f)), datetime(*fields(f), fold=1), SubDT(*fields(f), fold=1)):
            ctx.states += 1
            chk(ctx, FROM[LocalDateTime], eL(f), d, setup=SETUP)
            chk(ctx, PLAIN[LocalDateTime], True, d, vals.mkL(f), setup=SETUP)
            for t in (Instant, OffsetDateTime, SystemDateTime, ZonedDateTime):
                chk(ctx, FROM[t], VALUE, d, setup=SETUP)
    if ctx.thorough or i < 2:
        u = cal.local_ns(2023, 5, 5, 12, 0, 0, 999)
        for o in range(-86399 + i, 86400, 8 if ctx.thorough else 61):
            to_py(ctx, mkO(u, o), u + o * NS, o, None, eO(floor_us(u), o))
            all_from(ctx, datetime(*fields(u), tzinfo=timezone(timedelta(seconds=o))), floor_us(u), o)
    ctx.sample(f"fixed offsets at {cal.local_str(u)}")


DATE_RT = Op("(std_date(x.py_date()), Date.from_py_date(x.py_date()))", "x", std_date=lambda d: (type(d) is date, d.year, d.month, d.day))
FROM_DATE = Op("Date.from_py_date(d)", "d")
TIME_RT = Op("(std_time(x.py_time()), Time.from_py_time(x.py_time()))", "x",
             std_time=lambda t: (type(t) is dtm.time, t.hour, t.minute, t.second, t.microsecond, t.tzinfo, t.fold))
# naive values have left the choice between the two passes behind
NOFOLD = Op("(x.time().py_time().fold, x.local().py_datetime().fold, x.local().time().py_time().fold, x.date().at(x.time()).py_datetime().fold)", "x")
PLAIN_DATE = Op("plain(Date.from_py_date(d), e)", "d e", **ENV)
PLAIN_TIME = Op("(plain(Time.from_py_time(t), e), Time.from_py_time(t).py_time().fold, Time.from_py_time(t).on(Date(2020, 1, 1)).py_datetime().fold)", "t e", **ENV)
FROM_TIME = Op("Time.from_py_time(t)", "t")


def run_dates(ctx, i):
    S1 = SETUP + "; std_date = lambda d: (type(d) is datetime.date, d.year, d.month, d.day)"
    for n in range(i, cal.NDAYS, 8 if ctx.thorough else 8 * 31):
        y, m, d = cal.civil(n)
        ctx.states += 1
        chk(ctx, DATE_RT, ((True, y, m, d), ("D", y, m, d)), Date(y, m, d), setup=S1)
        if n % 7 == 0:
            for sd in (date(y, m, d), SubDate(y, m, d), datetime(y, m, d, 23, 59, 59, 999_999), SubDT(y, m, d, 23, 59), datetime(y, m, d, 23, tzinfo=timezone(timedelta(hours=-5)))):
                chk(ctx, FROM_DATE, ("D", y, m, d), sd, setup=SETUP)
                chk(ctx, PLAIN_DATE, True, sd, Date(y, m, d), setup=SETUP)
    S2 = SETUP + "; std_time = lambda t: (type(t) is datetime.time, t.hour, t.minute, t.second, t.microsecond, t.tzinfo, t.fold)"
    for s in range(i, 86400, 8 * (1 if ctx.thorough else 17)):
        for sub in (0, 1, 999, 1000, 1001, 500_000, 123_456_789, 999_999_000, 999_999_999):
            t = s * NS + sub
            f = floor_us(t)
            _, _, _, h, mi, sec, _ = cal.fields(t)
            ctx.states += 1
            chk(ctx, TIME_RT, ((True, h, mi, sec, sub // 1000, None, 0), ("T", f)), mkT(t), setup=S2)
        for us in (7, 0, 999_999) if s % 3 == 0 else (s * 11 % 10**6,):
            for fold in (0, 1):
                for st in (dtm.time(h, mi, sec, us, fold=fold), SubTime(h, mi, sec, us, fold=fold)):
                    chk(ctx, FROM_TIME, ("T", s * NS + us * 1000), st, setup=SETUP)
                    chk(ctx, PLAIN_TIME, (True, 0, 0), st, mkT(s * NS + us * 1000), setup=SETUP)
    ctx.sample(f"Date({y}, {m}, {d}) and times from date, datetime, time and subclasses")


MAXTD = 9999 * 366 * 24 * 3600 * NS


class SubTD(timedelta):
    def total_seconds(self):
        return 0.0


FROM_TD = Op("TimeDelta.from_py_timedelta(d)", "d")
TO_TD = Op("std_td(x.py_timedelta())", "x", std_td=lambda t: (type(t) is timedelta, t.days, t.seconds, t.microseconds))
SETUP_TD = "from datetime import timedelta; from mc.checks.c19 import SubTD; std_td = lambda t: (type(t) is timedelta, t.days, t.seconds, t.microseconds)"


def run_deltas(ctx):
    days = sorted({s * (d + e) for d in (0, 1, 30, 365, 36_525, 104_249, 104_250, 1_000_000, 2_932_896, 3_000_003, 3_652_058, 3_659_633, 3_659_634) for e in (0, 1) for s in (1, -1)} | {-999_999_999, 999_999_999})
    for d in days:
        for s in (0, 1, 59, 3599, 3600, 43_200, 86_398, 86_399, 12_345):
            for us in (0, 1, 2, 3, 7, 999, 1000, 1001, 123_456, 499_999, 500_000, 500_001, 999_997, 999_998, 999_999, 654_321):
                v = timedelta(d, s, us)
                ns = ((v.days * 86400 + v.seconds) * 10**6 + v.microseconds) * 1000
                ok = abs(ns) <= MAXTD
                ctx.states += 1
                chk(ctx, FROM_TD, ("TD", ns) if ok else RANGE, v, setup=SETUP_TD)
                if ok:
                    for sub in (0, 1, 999):
                        if abs(ns + sub) <= MAXTD:
                            chk(ctx, TO_TD, (True, v.days, v.seconds, v.microseconds), vals.mkTD(ns + sub), setup=SETUP_TD)
                if us < 3:
                    chk(ctx, FROM_TD, ("TD", ns) if ok else RANGE, SubTD(d, s, us), setup=SETUP_TD)
    for bad in (None, 3, 3.5, "1", dtm.time(1), date(2020, 1, 1)):
        chk(ctx, FROM_TD, Err(TypeError, ValueError, AttributeError), bad)
    ctx.sample(f"timedelta({d}, {s}, {us}) to and from TimeDelta")


def run_custom(ctx):
    H = timedelta(hours=1)
    base = [cal.local_ns(2023, 10, 29, 2, 30) + 123_456_000, cal.local_ns(1, 1, 1, 5), cal.local_ns(9999, 12, 31, 20), cal.local_ns(1969, 12, 31, 23, 59, 59) + 999_999_000]
    for a in (timedelta(0), H, -H, 23 * H + timedelta(minutes=59, seconds=59), -23 * H, timedelta(minutes=19, seconds=32), timedelta(seconds=-1)):
        for b in (None, timedelta(0), 2 * H, timedelta(seconds=-30)):
            for loc in base:
                for fold in (0, 1):
                    o = int((a if b is None or not fold else b).total_seconds())
                    for cls in (datetime, SubDT):
                        all_from(ctx, cls(*fields(loc), tzinfo=Tz(a, b), fold=fold), loc, o)
    # offsets that can't be expressed
    for us in (1, -1, 500_000, 999_999, 3_600_000_001):
        d = datetime(2023, 5, 5, 12, tzinfo=timezone(timedelta(microseconds=us)))
        loc = cal.local_ns(2023, 5, 5, 12)
        chk(ctx, FROM[Instant], eI(loc - us * 1000), d, setup=SETUP)
        for t in (OffsetDateTime, SystemDateTime, LocalDateTime, ZonedDateTime):
            chk(ctx, FROM[t], VALUE, d, setup=SETUP)
    d = datetime(2023, 5, 5, 12, tzinfo=Tz(None))
    for t in FROM:
        chk(ctx, FROM[t], VALUE, d, setup=SETUP)
    ctx.sample("custom tzinfo with fold-dependent, sub-second and missing offsets")


def run_bad(ctx):
    import io

    # time zones whose identity a ZonedDateTime can't carry
    class SubZone(zoneinfo.ZoneInfo):
        pass

    path = os.path.join(pool.ZONES_DIR, "Europe/Amsterdam")
    with open(path, "rb") as f:
        keyless = zoneinfo.ZoneInfo.from_file(io.BytesIO(f.read()))
    loc = cal.local_ns(2023, 10, 29, 2, 30)
    for fold in (0, 1):
        u = loc - (7200 - fold * 3600) * NS
        for zi in (SubZone("Europe/Amsterdam"), keyless):
            d = datetime(*fields(loc), tzinfo=zi, fold=fold)
            ctx.states += 1
            chk(ctx, FROM[ZonedDateTime], VALUE, d)
            chk(ctx, FROM[Instant], eI(u), d)
            chk(ctx, FROM[OffsetDateTime], eO(u, 7200 - fold * 3600), d)
        # the same zone from outside the cache is the same zone
        x = ZonedDateTime.from_py_datetime(datetime(*fields(loc), tzinfo=zoneinfo.ZoneInfo.no_cache("Europe/Amsterdam"), fold=fold))
        y = mkI(u).to_tz("Europe/Amsterdam")
        for src in ("x == y", "x.exact_eq(y)", "hash(x) == hash(y)", "(x - y).in_nanoseconds() == 0", "str(x) == str(y)", "x.replace(tz='Europe/Amsterdam').exact_eq(x)", "x.replace(tz='Europe/Amsterdam').exact_eq(y)",
                    "pickle.loads(pickle.dumps(x)).exact_eq(y)", "x.replace(minute=31).exact_eq(y.replace(minute=31))", "x.add(days=1).subtract(days=1).exact_eq(y.add(days=1).subtract(days=1))"):
            chk(ctx, Op(src, "x y"), True, x, y,
                setup=f"import zoneinfo\nu = {u}\nx = ZonedDateTime.from_py_datetime(datetime.datetime(2023, 10, 29, 2, 30, tzinfo=zoneinfo.ZoneInfo.no_cache('Europe/Amsterdam'), fold={fold}))")
    for bad in (None, 3, "2020-01-01", date(2020, 1, 1), dtm.time(1)):
        for t, op in FROM.items():
            chk(ctx, op, Err(TypeError, ValueError, AttributeError), bad)
        if type(bad) is not date:
            chk(ctx, FROM_DATE, TYPE, bad)
        if type(bad) is not dtm.time:
            chk(ctx, FROM_TIME, TYPE, bad)
    for t in (dtm.time(1, tzinfo=timezone.utc), SubTime(1, tzinfo=timezone.utc), dtm.time(1, tzinfo=zoneinfo.ZoneInfo("Europe/Amsterdam"))):
        chk(ctx, FROM_TIME, VALUE, t, setup=SETUP)
    ctx.sample("ZoneInfo subclasses, keyless and uncached ZoneInfo, aware times, wrong types")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
