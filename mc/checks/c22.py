from __future__ import annotations

import os
import time

from whenever import Date, Instant, LocalDateTime, OffsetDateTime, SystemDateTime, TimeDelta, ZonedDateTime

from .. import cal, core, pool, vals
from ..cal import DAY_NS, HOUR_NS, INCREMENTS, LOCAL_MAX, MIN_NS, MODES, NS, UNIT_NS, round_int
from ..vals import RANGE, Err, Op, SKIPPED, REPEATED, chk, eI, eL, eO, eS, eZ, mkI, mkL, mkO, mkT, report, view
from . import c26
from .c10 import Sub
from .c14 import day

ID = "C22"
TITLE = "No operation yields a value outside the documented range"

H = HOUR_NS
# distances from the edge
DIST = [0, 1, 999, NS - 1, NS, NS + 1, MIN_NS, H - 1, H, H + 1, 5 * H + 1800 * NS, 12 * H, 14 * H, 23 * H + 59 * MIN_NS + 59 * NS, DAY_NS - 1, DAY_NS, DAY_NS + 1, DAY_NS + 14 * H, 2 * DAY_NS,
        28 * DAY_NS, 31 * DAY_NS, 365 * DAY_NS, 366 * DAY_NS + 1]
EDGES = sorted({d for d in DIST} | {LOCAL_MAX - d for d in DIST})
NEAR = [e for e in EDGES if e <= 2 * DAY_NS or e >= LOCAL_MAX - 2 * DAY_NS]
OFFS = [0, 1, -1, 59, 3600, -3600, 5 * 3600 + 1800, -18000, 14 * 3600, -12 * 3600, 86399, -86399]
ZN = ["UTC", "Etc/GMT-14", "Etc/GMT+12", "Europe/Amsterdam", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Pacific/Kiritimati", "Australia/Lord_Howe", "Africa/Monrovia", "Asia/Manila", "America/Juneau"]


def bounds(tier):
    return {"moments": f"{len(EDGES)} distances from both range ends", "offsets": OFFS, "zones": ZN if tier == "quick" else "all zones",
            "operations": f"{len(TOTAL)} total operations, conversions between every pair of forms, constructors, exact and calendar shifts, all roundings, day queries, replacements"}


def zkeys(tier):
    ks = set(pool.keys())
    return [k for k in ZN if k in ks or any(k in al for _, _, al in pool.zone_index())] if tier == "quick" else pool.keys()


def shards(tier):
    return ([("offset", o) for o in OFFS] + [("zoned", k) for k in zkeys(tier)] + [("local", i) for i in range(4)] + [("instant",), ("system",), ("const",)]
            + [("grid", i) for i in range(8)])


# operations that never leave the range, whatever the value
TOTAL = [Op(s, "x") for s in """
(x.year, x.month, x.day, x.hour, x.minute, x.second, x.nanosecond)
x.date()
x.time()
x.local()
x.date().at(x.time())
x.instant()
x.instant().format_common_iso()
str(x)
repr(x)
hash(x) == hash(x.instant())
x == x.instant()
x <= x.instant()
x < x.instant()
x.exact_eq(x)
x - x
x.instant() - x
x.difference(x)
type(x).parse_common_iso(x.format_common_iso())
pickle.loads(pickle.dumps(x))
copy.deepcopy(x)
x.timestamp()
x.timestamp_millis()
x.timestamp_nanos()
x.py_datetime().utcoffset()
x.to_tz('UTC')
x.to_fixed_offset(0)
x.to_fixed_offset()
x.instant().to_fixed_offset(x.offset)
x.to_fixed_offset(x.offset)
x.to_system_tz()
x == x.to_system_tz()
hash(x.to_tz('UTC'))
""".strip().splitlines()]
TOTAL_Z = [Op(s, "x") for s in """
x + TimeDelta()
x - TimeDelta()
x.replace(disambiguate='compatible') if not x.is_ambiguous() else x
x.replace(nanosecond=x.nanosecond)
x.replace_time(x.time())
x.replace_date(x.date())
x.round('nanosecond')
x.add(days=0, hours=0)
x.to_tz(x.tz)
x.instant().to_tz(x.tz)
""".strip().splitlines()]
TOTAL_O = [Op(s, "x") for s in """
x.replace(nanosecond=x.nanosecond, ignore_dst=True)
x.replace_time(x.time(), ignore_dst=True)
x.replace_date(x.date(), ignore_dst=True)
x.round('nanosecond', ignore_dst=True)
x.add(days=0, hours=0, ignore_dst=True)
x.local().assume_fixed_offset(x.offset)
""".strip().splitlines()]


def sane(v):
    """is the observed value inside the range and consistent with itself?"""
    if type(v) is not tuple or not v or type(v[0]) is not str:
        return True
    if v[0] == "I":
        return cal.in_range(v[1])
    if v[0] == "L":
        return cal.in_range(v[1])
    if v[0] in ("O", "S"):
        return cal.in_range(v[1]) and cal.in_range(v[3]) and v[1] - v[2] == v[3] and abs(v[2]) < DAY_NS
    if v[0] == "Z":
        return cal.in_range(v[2]) and cal.in_range(v[4]) and v[2] - v[3] == v[4] and abs(v[3]) < DAY_NS and pool.zone(v[1]).offset(v[4] // NS) * NS == v[3]
    return True


def total(ctx, ops, x, v):
    for op in ops:
        ctx.transitions += 1
        ctx.traces += 1
        try:
            got = view(op.f(x))
        except Exception as e:  # noqa: BLE001
            report(ctx, op, "a value", type(e).__name__, (x,), "stays in range: " + repr(e)[:100])
            continue
        if got is False and "<" in op.src and "<=" not in op.src:
            continue
        if got is False or not sane(got):
            report(ctx, op, "true / in range", repr(got), (x,))
        # everything that gives back a moment keeps the moment; what gives back
        # the same kind of value is the identity
        elif type(got) is tuple and got and type(got[0]) is str and got[0] in "IOZSL":
            if got[0] in "IOZS" and v[0] in "IOZS" and got[-1] != v[-1]:
                report(ctx, op, f"same moment as {v!r}", repr(got), (x,), "the operation does not change the moment")
            elif got[0] == v[0] and got != v and op.src not in CONVERT:
                report(ctx, op, repr(v), repr(got), (x,), "the operation does not change the value")


CONVERT = {"x.to_tz('UTC')", "x.to_fixed_offset(0)"}

TO_O = Op("x.to_fixed_offset(TimeDelta(seconds=o))", "x o")
TO_Z = Op("x.to_tz(k)", "x k")
ADD = Op("x + t", "x t")
SUB = Op("x - t", "x t")
STEPS = [1, NS, H, DAY_NS, 400 * DAY_NS, LOCAL_MAX, LOCAL_MAX - 1, LOCAL_MAX + 1, cal.MAX_TDELTA]


def oexp(u, o):
    return eO(u, o) if cal.in_range(u) and cal.in_range(u + o * NS) else RANGE


def zexp(u, k):
    if not cal.in_range(u):
        return RANGE
    o = pool.zone(k).offset(u // NS)
    return eZ(k, u, o) if cal.in_range(u + o * NS) else RANGE


def conversions(ctx, x, u, keys):
    for o in OFFS:
        chk(ctx, TO_O, oexp(u, o), x, o)
    for k in keys:
        chk(ctx, TO_Z, zexp(u, k), x, k)


ROUND_O = Op("x.round(unit, inc, mode, ignore_dst=True)", "x unit inc mode")
ROUND = Op("x.round(unit, inc, mode)", "x unit inc mode")
RND = [("hour", 1), ("hour", 24), ("hour", 12), ("minute", 1), ("minute", 15), ("second", 1), ("second", 30), ("millisecond", 1), ("microsecond", 500), ("nanosecond", 1000)]
RND = [(u, i) for u, i in RND if i in INCREMENTS[u]]


def run_offset(ctx, off):
    for v in EDGES:
        for l in {v, v + off * NS}:
            u = l - off * NS
            ctx.states += 1
            f = cal.fields(l) if cal.in_range(l) else None
            if f:
                chk(ctx, C_O, oexp(u, off), *f, off)
                chk(ctx, ASSUME_O, oexp(u, off), mkL(l), off)
                txt = cal.local_str(l) + cal.off_str(off)
                chk(ctx, P_O, oexp(u, off), txt)
            if type(oexp(u, off)) is not tuple:
                continue
            x = mkO(u, off)
            total(ctx, TOTAL + TOTAL_O, x, view(x))
            conversions(ctx, x, u, ZN)
            for t in STEPS:
                for sg in (1, -1):
                    chk(ctx, A_O, oexp(u + sg * t, off), x, 0, 0, sg * t)
            for mo, d in [(0, 1), (0, -1), (1, 0), (-1, 0), (12, 0), (-12, 0), (0, 31), (0, -31), (12, -1), (9998 * 12, 0), (-9998 * 12, 0), (0, 3652058), (0, -3652058)]:
                for t in (0, 1, -1, H, -H, DAY_NS, -DAY_NS):
                    chk(ctx, A_O, c26.exp(c26.model(l, mo, d, t, off), off), x, mo, d, t)
            for unit, i in RND + [("day", 1)]:
                inc = DAY_NS if unit == "day" else UNIT_NS[unit] * i
                for m in MODES:
                    r = l // DAY_NS * DAY_NS + round_int(l % DAY_NS, inc, m)
                    chk(ctx, ROUND_O, oexp(r - off * NS, off) if cal.in_range(r) else RANGE, x, unit, i, m)
            replace_offset(ctx, x, l, off)
    for v in EDGES:
        for l in {v, v + off * NS}:
            texts(ctx, l, off)
    for u in EDGES + [-1, -NS, -off * NS - 1, LOCAL_MAX + 1, LOCAL_MAX + NS, LOCAL_MAX - off * NS + 1]:
        stamps(ctx, u, off)
    ctx.sample(f"offset {off}: {len(EDGES)} distances from the ends in UTC and in local time")


C_O = Op("OffsetDateTime(y, mo, d, h, mi, s, nanosecond=ns, offset=TimeDelta(seconds=o))", "y mo d h mi s ns o")
P_O = Op("OffsetDateTime.parse_common_iso(t)", "t")
C_Z = Op("ZonedDateTime(y, mo, d, h, mi, s, nanosecond=ns, tz=k, disambiguate=m)", "y mo d h mi s ns k m")
ASSUME_O = Op("l.assume_fixed_offset(TimeDelta(seconds=o))", "l o")
ASSUME_Z = Op("l.assume_tz(k, disambiguate=m)", "l k m")
A_O = Op("x.add(months=mo, days=d, nanoseconds=t, ignore_dst=True)", "x mo d t")
A_Z = Op("x.add(months=mo, days=d, nanoseconds=t)", "x mo d t")
A_ZM = Op("x.add(months=mo, days=d, nanoseconds=t, disambiguate='raise')", "x mo d t")
SOD = Op("x.start_of_day()", "x")
LEN = Op("x.day_length()", "x")
R_T = Op("x.replace_time(t)", "x t")
R_D = Op("x.replace_date(Date(y, m, d))", "x y m d")


TODS = (0, 1, H, 12 * H, 23 * H, DAY_NS - 1)
DATES = ((1, 1, 1), (1, 1, 2), (9999, 12, 31), (9999, 12, 30), (2020, 5, 5))
R_TO = Op("x.replace_time(t, ignore_dst=True)", "x t")
R_DO = Op("x.replace_date(Date(y, m, d), ignore_dst=True)", "x y m d")
R_OO = Op("x.replace(offset=TimeDelta(seconds=o), ignore_dst=True)", "x o")
R_OI = Op("x.replace(offset=h, ignore_dst=True)", "x h")
R_FO = {n: Op(f"x.replace({n}=v, ignore_dst=True)", "x v") for n in ("year", "month", "day", "hour", "minute", "second", "nanosecond")}
R_ALL = Op("x.replace(year=y, month=m, day=d, hour=h, minute=mi, second=s, nanosecond=ns, offset=TimeDelta(seconds=o), ignore_dst=True)", "x y m d h mi s ns o")
FIELD_EDGES = {"year": (1, 2, 2020, 9998, 9999), "month": (1, 12), "day": (1, 2, 28, 30, 31), "hour": (0, 5, 12, 23), "minute": (0, 30, 59), "second": (0, 59), "nanosecond": (0, NS - 1)}


def field_replaced(l, n, v):
    f = dict(zip(("year", "month", "day", "hour", "minute", "second", "nanosecond"), cal.fields(l)))
    f[n] = v
    return cal.local_ns(*f.values()) if f["day"] <= cal.dim(f["year"], f["month"]) else None


def replace_offset(ctx, x, l, off):
    """every replacement on a value at the edge, and of the offset alone"""
    n, tod = divmod(l, DAY_NS)
    for t in TODS:
        chk(ctx, R_TO, oexp(n * DAY_NS + t - off * NS, off), x, mkT(t))
    for dd in DATES:
        chk(ctx, R_DO, oexp(cal.days(*dd) * DAY_NS + tod - off * NS, off), x, *dd)
    for o in OFFS:
        chk(ctx, R_OO, oexp(l - o * NS, o), x, o)
        if o % 3600 == 0:
            chk(ctx, R_OI, oexp(l - o * NS, o), x, o // 3600)
    for name, vs in FIELD_EDGES.items():
        for v in vs:
            r = field_replaced(l, name, v)
            chk(ctx, R_FO[name], RANGE if r is None else oexp(r - off * NS, off), x, v)
    for l2 in (0, 5 * H, DAY_NS, LOCAL_MAX, LOCAL_MAX - 5 * H):
        for o in (0, 3600, -3600, 86399, -86399):
            chk(ctx, R_ALL, oexp(l2 - o * NS, o), x, *cal.fields(l2), o)


P_O3 = Op("OffsetDateTime.parse_rfc3339(t)", "t")
P_O2 = Op("OffsetDateTime.parse_rfc2822(t)", "t")
P_OS = Op("OffsetDateTime.strptime(t, '%Y-%m-%dT%H:%M:%S.%f%z')", "t")
P_S = Op("SystemDateTime.parse_common_iso(t)", "t")
P_I = Op("Instant.parse_common_iso(t)", "t")
P_I3 = Op("Instant.parse_rfc3339(t)", "t")
PY = "datetime.datetime(y, mo, d, h, mi, s, us, datetime.timezone(datetime.timedelta(seconds=o)))"
F_O = Op(f"OffsetDateTime.from_py_datetime({PY})", "y mo d h mi s us o")
F_S = Op(f"SystemDateTime.from_py_datetime({PY})", "y mo d h mi s us o")
F_I = Op(f"Instant.from_py_datetime({PY})", "y mo d h mi s us o")


def as_system(e):
    return ("S",) + e[1:] if type(e) is tuple else e


def texts(ctx, l, off):
    """texts and standard-library values at the edges"""
    if not cal.in_range(l):
        return
    ctx.states += 1
    u = l - off * NS
    e = oexp(u, off)
    t = cal.local_str(l)
    chk(ctx, P_S, as_system(e), t + cal.off_str(off))
    if off % 60 == 0:
        chk(ctx, P_O3, e, t + cal.off_str(off))
        chk(ctx, P_O3, e, t.replace("T", " ") + cal.off_str(off))
        l0 = l // NS * NS
        y, mo, d, h, mi, s, _ = cal.fields(l)
        if y >= 1900:
            hh = cal.off_str(off).replace(":", "")
            name = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[mo - 1]
            chk(ctx, P_O2, oexp(l0 - off * NS, off), f"{d} {name} {y:04d} {h:02d}:{mi:02d}:{s:02d} {hh}")
    if off == 0:
        chk(ctx, P_I, eI(l), t + "Z")
        chk(ctx, P_I3, eI(l), t + "Z")
    us = l // 1000 * 1000
    y, mo, d, h, mi, s, ns = cal.fields(us)
    chk(ctx, P_OS, oexp(us - off * NS, off), cal.local_str(us // NS * NS) + f".{ns // 1000:06d}" + cal.off_str(off))
    a = (y, mo, d, h, mi, s, ns // 1000, off)
    e = oexp(us - off * NS, off)
    chk(ctx, F_O, e, *a)
    chk(ctx, F_S, as_system(e), *a)
    # an instant needs no local time in range, and the other way round
    chk(ctx, F_I, eI(us - off * NS) if cal.in_range(us - off * NS) else RANGE, *a)


STAMP = vals.Err(ValueError, OverflowError, OSError)
T_O = [(Op(f"OffsetDateTime.from_timestamp{n}(i, offset=TimeDelta(seconds=o), ignore_dst=True)", "i o"), d) for n, d in (("", NS), ("_millis", 10**6), ("_nanos", 1))]
T_Z = [(Op(f"ZonedDateTime.from_timestamp{n}(i, tz=k)", "i k"), d) for n, d in (("", NS), ("_millis", 10**6), ("_nanos", 1))]
T_I = [(Op(f"Instant.from_timestamp{n}(i)", "i"), d) for n, d in (("", NS), ("_millis", 10**6), ("_nanos", 1))]


def stamps(ctx, u, off):
    for op, d in T_O:
        e = oexp(u // d * d, off)
        chk(ctx, op, e if type(e) is tuple else STAMP, (u - cal.EPOCH_NS) // d, off)
    if off == 0:
        for op, d in T_I:
            chk(ctx, op, eI(u // d * d) if cal.in_range(u) else STAMP, (u - cal.EPOCH_NS) // d)


P_Z = Op("ZonedDateTime.parse_common_iso(t)", "t")
R_Z = Op("x.replace(tz=k)", "x k")
R_FZ = {n: Op(f"x.replace({n}=v)", "x v") for n in R_FO}
F_Z = Op("ZonedDateTime.from_py_datetime(datetime.datetime(y, mo, d, h, mi, s, us, zoneinfo.ZoneInfo(k)))", "y mo d h mi s us k")


def run_zoned(ctx, k):
    z = pool.zone(k)
    sub = Sub(z, False)
    ls = set()
    for v in EDGES:
        o = z.offset(min(max(v, 0), LOCAL_MAX) // NS)
        ls |= {v, v + o * NS}
    for l in sorted(ls):
        if not cal.in_range(l):
            continue
        f = cal.fields(l)
        for m in ("compatible", "raise"):
            e = sub.to(l, m, 0)
            chk(ctx, C_Z, e, *f, k, m)
            chk(ctx, ASSUME_Z, e, mkL(l), k, m)
        e = sub.to(l, "compatible", 0)
        ctx.states += 1
        if type(e) is not tuple:
            # whatever the offset in the text, there is no such moment
            for o in {z.offset(0), z.offset(LOCAL_MAX // NS), 0}:
                chk(ctx, P_Z, e, cal.local_str(l) + cal.off_str(o) + f"[{k}]")
            us = l // 1000 * 1000
            y, mo, d, h, mi, s, ns = cal.fields(us)
            if sub.to(us, "compatible", 0) is RANGE:
                chk(ctx, F_Z, RANGE, y, mo, d, h, mi, s, ns // 1000, k)
            continue
        chk(ctx, P_Z, sub.to(l, "compatible", 0), cal.local_str(l) + cal.off_str(e[3] // NS) + f"[{k}]")
        u, off = e[4], e[3] // NS
        l = e[2]
        x = mkI(u).to_tz(k)
        total(ctx, TOTAL + TOTAL_Z, x, view(x))
        conversions(ctx, x, u, ZN)
        for t in STEPS:
            for sg in (1, -1):
                e = sub.exp(u + sg * t)
                if t <= cal.MAX_TDELTA:
                    chk(ctx, ADD, e, x, TimeDelta(nanoseconds=sg * t))
                    chk(ctx, SUB, e, x, TimeDelta(nanoseconds=-sg * t))
        n, tod = divmod(l, DAY_NS)
        for mo, d in [(0, 1), (0, -1), (1, 0), (-1, 0), (12, 0), (-12, 0), (0, 31), (0, -31), (12, -1), (9998 * 12, 0), (-9998 * 12, 0), (0, 3652058), (0, -3652058)]:
            try:
                d1 = cal.days(*cal.shift_date(*cal.civil(n), mo, d))
            except cal.OutOfRange:
                d1 = None
            for t in (0, 1, -1, H, -H, DAY_NS, -DAY_NS):
                e = RANGE if d1 is None else sub.to(d1 * DAY_NS + tod, None, off, t)
                chk(ctx, A_Z, e, x, mo, d, t)
        a = sub.resolve(n * DAY_NS, "compatible", 0)
        e = sub.exp(a) if type(a) is int else RANGE
        chk(ctx, SOD, e, x)
        b = sub.resolve((n + 1) * DAY_NS, "compatible", 0)
        if type(e) is tuple and type(b) is int and type(sub.exp(b)) is tuple:
            chk(ctx, LEN, ("TD", b - a), x)
        for tod2 in (0, 1, H, 12 * H, 23 * H, DAY_NS - 1):
            chk(ctx, R_T, sub.to(n * DAY_NS + tod2, None, off), x, mkT(tod2))
        for dd in ((1, 1, 1), (1, 1, 2), (9999, 12, 31), (9999, 12, 30), (2020, 5, 5)):
            chk(ctx, R_D, sub.to(cal.days(*dd) * DAY_NS + tod, None, off), x, *dd)
        for k2 in ZN:
            z2 = Sub(pool.zone(k2), False)
            chk(ctx, R_Z, sub.to(l, None, off) if k2 == k else z2.to(l, "compatible", 0), x, k2)
        for name, vs in FIELD_EDGES.items():
            for v in vs:
                r = field_replaced(l, name, v)
                chk(ctx, R_FZ[name], RANGE if r is None else sub.to(r, None, off), x, v)
        for unit, i in RND:
            for m in MODES:
                r = n * DAY_NS + round_int(tod, UNIT_NS[unit] * i, m)
                chk(ctx, ROUND, sub.to(r, None, off) if cal.in_range(r) else RANGE, x, unit, i, m)
        if type(e) is tuple and type(b) is int and type(sub.exp(b)) is tuple:
            chk(ctx, ROUND, e if u == a else sub.exp(b), x, "day", 1, "ceil")
            chk(ctx, ROUND, e, x, "day", 1, "floor")
    for u in EDGES + [-1, -NS, LOCAL_MAX + 1, LOCAL_MAX + NS]:
        for op, d in T_Z:
            e = zexp(u // d * d, k)
            chk(ctx, op, e if type(e) is tuple else STAMP, (u - cal.EPOCH_NS) // d, k)
    ctx.sample(f"{k}: {len(ls)} local times at the ends of the range")


L_ADD = Op("x.add(months=mo, days=d, nanoseconds=t, ignore_dst=True)", "x mo d t")
L_TOT = [Op(s, "x") for s in ("x.date().at(x.time())", "LocalDateTime.parse_common_iso(str(x))", "x.round('nanosecond')", "x.replace()", "x.replace_time(x.time())", "x.replace_date(x.date())", "pickle.loads(pickle.dumps(x))",
                              "x.assume_utc().to_tz('UTC').local()", "x.add(days=0)", "LocalDateTime.from_py_datetime(x.py_datetime()).replace(nanosecond=x.nanosecond)", "x.difference(x, ignore_dst=True)", "hash(x)", "repr(x)")]


def run_local(ctx, i):
    for l in EDGES[i::4]:
        x = mkL(l)
        ctx.states += 1
        total(ctx, L_TOT, x, view(x))
        for unit, inc in RND + [("day", 1)]:
            n = DAY_NS if unit == "day" else UNIT_NS[unit] * inc
            for m in MODES:
                r = l // DAY_NS * DAY_NS + round_int(l % DAY_NS, n, m)
                chk(ctx, ROUND, eL(r) if cal.in_range(r) else RANGE, x, unit, inc, m)
        for t in STEPS:
            for sg in (1, -1):
                chk(ctx, L_ADD, c26.exp(c26.model(l, 0, 0, sg * t), None), x, 0, 0, sg * t)
        for mo in (1, -1, 12, -12, 9998 * 12, -9998 * 12, 9999 * 12, 10**9, -(10**9), 10**20):
            chk(ctx, L_ADD, c26.exp(c26.model(l, mo, 0, 0), None), x, mo, 0, 0)
        for d in (1, -1, 31, 366, -366, 3652058, -3652058, 3652059, -3652059, 10**9, -(10**9), 10**20):
            chk(ctx, L_ADD, c26.exp(c26.model(l, 0, d, 0), None), x, 0, d, 0)
        for l2 in EDGES:
            chk(ctx, Op("x.difference(y, ignore_dst=True)", "x y"), ("TD", l - l2), x, mkL(l2))
    ctx.sample(f"{x}")


I_TOT = [Op(s, "x") for s in ("Instant.parse_common_iso(str(x))", "Instant.parse_rfc3339(x.format_rfc3339())", "x.to_tz('UTC').instant()", "x.to_fixed_offset().instant()", "x.to_fixed_offset(0).instant()", "x + TimeDelta()",
                              "x.round('nanosecond')", "pickle.loads(pickle.dumps(x))", "x.add()", "Instant.from_timestamp_nanos(x.timestamp_nanos())", "x - x", "hash(x)", "repr(x)", "x.to_system_tz().instant()", "x.py_datetime().utcoffset()")]
I_C = Op("Instant.from_utc(y, mo, d, h, mi, s, nanosecond=ns)", "y mo d h mi s ns")


def run_instant(ctx):
    for u in EDGES:
        x = mkI(u)
        ctx.states += 1
        total(ctx, I_TOT, x, view(x))
        chk(ctx, I_C, eI(u), *cal.fields(u))
        conversions(ctx, x, u, pool.keys())
        for t in STEPS:
            for sg in (1, -1):
                e = eI(u + sg * t) if cal.in_range(u + sg * t) else RANGE
                chk(ctx, ADD, e, x, TimeDelta(nanoseconds=sg * t))
                chk(ctx, SUB, e, x, TimeDelta(nanoseconds=-sg * t))
                chk(ctx, Op("x.add(nanoseconds=t)", "x t"), e, x, sg * t)
        for unit, i in RND:
            for m in MODES:
                r = round_int(u % DAY_NS, UNIT_NS[unit] * i, m) + u // DAY_NS * DAY_NS
                chk(ctx, ROUND, eI(r) if cal.in_range(r) else RANGE, x, unit, i, m)
        for u2 in EDGES:
            chk(ctx, Op("x - y", "x y"), ("TD", u - u2), x, mkI(u2))
    ctx.sample(f"{x}")


ASSUME_S = Op("l.assume_system_tz()", "l")
C_S = Op("SystemDateTime(y, mo, d, h, mi, s, nanosecond=ns)", "y mo d h mi s ns")


def run_system(ctx):
    """fixed-offset system zones: the platform is exact there"""
    for tz, off in (("UTC", 0), ("<+14>-14", 14 * 3600), ("<-12>12", -12 * 3600), ("<+0545>-5:45", 20700)):
        os.environ["TZ"] = tz
        time.tzset()
        vals.EXTRA_SETUP = f"os.environ['TZ'] = {tz!r}; time.tzset()"
        for v in EDGES:
            for u in {v, v - off * NS}:
                if not cal.in_range(u):
                    continue
                ctx.states += 1
                e = eS(u, off) if cal.in_range(u + off * NS) else RANGE
                chk(ctx, Op("x.to_system_tz()", "x"), e, mkI(u))
                op = Op("Instant.from_timestamp_nanos(n).to_system_tz().instant()", "n")
                if e is not RANGE:
                    chk(ctx, op, eI(u), u - cal.EPOCH_NS)
                    x = mkI(u).to_system_tz()
                    for t in STEPS:
                        for sg in (1, -1):
                            w = u + sg * t
                            chk(ctx, ADD, eS(w, off) if cal.in_range(w) and cal.in_range(w + off * NS) else RANGE, x, TimeDelta(nanoseconds=sg * t))
                    for s in ("str(x)", "hash(x)", "x == x.instant()", "x.instant()", "x.to_fixed_offset()", "x.local()", "x - x"):
                        try:
                            if not sane(view(Op(s, "x").f(x))):
                                report(ctx, Op(s, "x"), "in range", "out of range", (x,))
                        except Exception as ex:  # noqa: BLE001
                            report(ctx, Op(s, "x"), "a value", type(ex).__name__, (x,))
            l = v
            u = l - off * NS
            e = eS(u, off) if cal.in_range(u) else RANGE
            # within two days of the ends the platform's naive-time
            # conversion may give up: then an error, never a wrong value
            far = 2 * DAY_NS <= l <= LOCAL_MAX - 2 * DAY_NS
            for op, a in ((ASSUME_S, (mkL(l),)), (C_S, cal.fields(l))):
                if far or e is RANGE or not isinstance(core.call(op.f, *a), RANGE.types):
                    chk(ctx, op, e, *a)
                else:
                    ctx.outcomes["platform limit"] += 1
    ctx.sample("system zones of fixed offset")


def run_const(ctx):
    """documented extremes"""
    for s, e in (("Instant.MIN", eI(0)), ("Instant.MAX", eI(LOCAL_MAX)), ("LocalDateTime.MIN", eL(0)), ("LocalDateTime.MAX", eL(LOCAL_MAX)), ("Date.MIN", ("D", 1, 1, 1)), ("Date.MAX", ("D", 9999, 12, 31)),
                 ("Time.MIDNIGHT", ("T", 0)), ("Time.NOON", ("T", 12 * H)), ("Time.MAX", ("T", DAY_NS - 1)), ("TimeDelta.MAX", ("TD", cal.MAX_TDELTA)), ("TimeDelta.MIN", ("TD", -cal.MAX_TDELTA)), ("TimeDelta.ZERO", ("TD", 0)),
                 ("DateDelta.ZERO", ("DD", 0, 0)), ("DateTimeDelta.ZERO", ("DTD", 0, 0, 0)), ("YearMonth.MIN", ("YM", 1, 1)), ("YearMonth.MAX", ("YM", 9999, 12)), ("MonthDay.MIN", ("MD", 1, 1)), ("MonthDay.MAX", ("MD", 12, 31))):
        ctx.states += 1
        chk(ctx, Op(s, ""), e)
    ctx.sample("documented minimum and maximum constants")


BAD = [0, -1, 1, 2, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 99, 366, 9999, 10000, 2**31, -(2**31), 2**63, 2**64, 10**9 - 1, 10**9]


def run_grid(ctx, i):
    """constructors reject every out-of-range field"""
    base = dict(year=2020, month=2, day=3, hour=4, minute=5, second=6, nanosecond=7)
    names = list(base)
    rng = dict(year=(1, 9999), month=(1, 12), day=(1, 29), hour=(0, 23), minute=(0, 59), second=(0, 59), nanosecond=(0, NS - 1))
    ctors = {
        "Instant.from_utc({})": lambda l: eI(l), "LocalDateTime({})": lambda l: eL(l), "OffsetDateTime({}, offset=1)": lambda l: oexp(l - H, 3600),
        "ZonedDateTime({}, tz='Asia/Kathmandu')": lambda l: Sub(pool.zone("Asia/Kathmandu"), False).to(l, "compatible", 0), "SystemDateTime({})": lambda l: eS(l, 0),
    }
    args = "year, month, day, hour, minute, second, nanosecond=nanosecond"
    ops = {s: Op(s.format(args), " ".join(names)) for s in ctors}
    n = 0
    import itertools

    for a, b in itertools.combinations(names, 2):
        for v in BAD:
            for w in BAD:
                n += 1
                if n % 8 != i:
                    continue
                f = dict(base, **{a: v, b: w})
                ok = all(rng[k][0] <= f[k] <= rng[k][1] or k == "day" for k in names) and f["day"] >= 1 and f["day"] <= cal.dim(f["year"], f["month"])
                ctx.states += 1
                for s, op in ops.items():
                    e = ctors[s](cal.local_ns(*f.values())) if ok else RANGE
                    if s.startswith("System") and ok and not 2 < f["year"] < 9998:
                        continue
                    chk(ctx, op, e, *f.values())
    ctx.sample("two fields out of range at a time")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    os.environ["TZ"] = "UTC"
    time.tzset()
    globals()["run_" + kind](ctx, *a)
