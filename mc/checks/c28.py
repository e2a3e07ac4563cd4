from __future__ import annotations

import itertools
import os
import time

from whenever import Date, MonthDay, YearMonth

from .. import cal, pool, tzmodel, vals
from ..cal import DAY_NS, HOUR_NS, NS
from ..vals import RANGE, TYPE, VALUE, Err, Op, chk, eL, eO, eS, eZ, mkI, mkL, mkO, mkS, mkT, view
from .c10 import Sub

ID = "C28"
TITLE = "Replacing fields changes exactly those fields, or raises"

F = ("year", "month", "day", "hour", "minute", "second", "nanosecond")
# per field: values to put in (valid and not)
ALT = {
    "year": (1, 2023, 2024, 9999, 0, 10000),
    "month": (2, 12, 0, 13),
    "day": (1, 29, 31, 0, 32),
    "hour": (0, 2, 23, 24, -1),
    "minute": (0, 59, 60),
    "second": (0, 59, 60),
    "nanosecond": (0, 999_999_999, 10**9, -1),
}
SMALL = {"year": (2023, 10000), "month": (2, 13), "day": (29, 31), "hour": (2, 24), "minute": (30, 60), "second": (59, 60), "nanosecond": (0, 10**9)}
MODES = (None, "compatible", "earlier", "later", "raise")
L_ = cal.local_ns
BASE = [
    L_(2020, 2, 29, 2, 30, 15, 123_456_789), L_(2023, 3, 26, 2, 30), L_(2023, 10, 29, 2, 59, 59, 999_999_999), L_(1999, 12, 31, 23, 59, 59, 1),
    L_(2024, 1, 31, 1, 30), L_(1, 1, 2), L_(9999, 12, 30, 23, 59, 59, 999_999_999), L_(1969, 6, 15, 12, 0, 0, 1000),
]
OFFS = [0, 3600, -18000, 20700, 1, -86399]
ZN = [("Europe/Amsterdam", [L_(2023, 3, 26, 1, 59), L_(2023, 3, 26, 3), L_(2023, 10, 29, 2, 30), L_(2023, 10, 29, 3), L_(2022, 10, 30, 2, 15)]),
      ("America/New_York", [L_(2023, 3, 12, 3, 30), L_(2023, 11, 5, 1, 30)]),
      ("Australia/Lord_Howe", [L_(2023, 4, 2, 1, 45), L_(2023, 10, 1, 2, 30)]),
      ("America/Sao_Paulo", [L_(2018, 11, 4, 1, 0), L_(2018, 2, 17, 23, 30)]),
      ("Pacific/Apia", [L_(2011, 12, 29, 10), L_(2011, 12, 31, 2)]),
      ("Africa/Monrovia", [L_(1972, 1, 7, 0, 50), L_(1971, 5, 5)])]


def bounds(tier):
    return {
        "subsets": "all 128 subsets of the seven fields, each field given every combination of "
        + "its boundary values " + repr(ALT) + ("" if tier == "thorough" else " (for offset values other than +01:00: two values per field, and all pairs of fields with all values)"),
        "types": "date, year-month, month-day, time, local; offset values with 6 offsets and replaced offsets; zoned and system values next to transitions of "
        + ", ".join(k for k, _ in ZN) + " with every mode and replaced zones",
        "days": "every day of four years with every month, five years, five days of month",
        "errors": "unknown and forbidden keywords on every type",
    }


def combos(tier, fields=F, big=False):
    """dicts of replaced fields"""
    if big:
        for vs in itertools.product(*([None, *ALT[f]] for f in fields)):
            yield {f: v for f, v in zip(fields, vs) if v is not None}
        return
    for vs in itertools.product(*([None, *SMALL[f]] for f in fields)):
        yield {f: v for f, v in zip(fields, vs) if v is not None}
    for a, b in itertools.combinations(fields, 2):
        for v in ALT[a]:
            for w in ALT[b]:
                yield {a: v, b: w}
    for a in fields:
        for v in ALT[a]:
            yield {a: v}


def shards(tier):
    return ([("simple", i) for i in range(8)] + [("local", i) for i in range(len(BASE))] + [("offset", i) for i in range(len(BASE))]
            + [("zoned", i, j, s) for i in range(len(ZN)) for j in range(len(ZN[i][1])) for s in (False, True)] + [("days", y) for y in (1900, 2000, 2023, 2024)] + [("tz",), ("keywords",)])


_OPS = {}


def rop(keys, extra=""):
    """x.replace(a=a, b=b ...)"""
    k = (tuple(keys), extra)
    if k not in _OPS:
        args = ", ".join(f"{n}={n}" for n in keys)
        _OPS[k] = Op(f"x.replace({args}{', ' if args and extra else ''}{extra})", "x " + " ".join(keys))
    return _OPS[k]


def put(local, d):
    """model: new local ns or None if invalid"""
    f = dict(zip(F, cal.fields(local)))
    f.update(d)
    if not (1 <= f["year"] <= 9999 and 1 <= f["month"] <= 12 and 0 <= f["hour"] < 24 and 0 <= f["minute"] < 60 and 0 <= f["second"] < 60 and 0 <= f["nanosecond"] < NS):
        return None
    if not 1 <= f["day"] <= cal.dim(f["year"], f["month"]):
        return None
    return L_(*(f[n] for n in F))


def run_simple(ctx, i):
    for j, l in enumerate(BASE):
        y, mo, d, h, mi, s, ns = cal.fields(l)
        for n, c in enumerate(combos(ctx.tier, F[:3], True)):
            if n % 8 != i:
                continue
            ctx.states += 1
            r = put(l // DAY_NS * DAY_NS, c)
            chk(ctx, rop(c), ("D", *cal.fields(r)[:3]) if r is not None else VALUE, Date(y, mo, d), *c.values())
            if "day" not in c:
                r = put(L_(y, mo, 1), c)
                chk(ctx, rop(c), ("YM", *cal.fields(r)[:2]) if r is not None else VALUE, YearMonth(y, mo), *c.values())
            if "year" not in c:
                r = put(L_(2000, mo, d), c)
                chk(ctx, rop(c), ("MD", *cal.fields(r)[1:3]) if r is not None else VALUE, MonthDay(mo, d), *c.values())
        for n, c in enumerate(combos("thorough", F[3:], True)):
            if n % 8 != i:
                continue
            ctx.states += 1
            r = put(l, c)
            chk(ctx, rop(c), ("T", r % DAY_NS) if r is not None else VALUE, mkT(l % DAY_NS), *c.values())
    ctx.sample(f"{Date(y, mo, d)}, {mkT(l % DAY_NS)}: all field combinations")


R_D = Op("x.replace_date(Date(y, mo, d))", "x y mo d")
R_T = Op("x.replace_time(t)", "x t")
R_DO = Op("x.replace_date(Date(y, mo, d), ignore_dst=True)", "x y mo d")
R_TO = Op("x.replace_time(t, ignore_dst=True)", "x t")
R_DM = Op("x.replace_date(Date(y, mo, d), disambiguate=mode)", "x y mo d mode")
R_TM = Op("x.replace_time(t, disambiguate=mode)", "x t mode")


def run_local(ctx, i):
    l = BASE[i]
    x = mkL(l)
    for c in combos(ctx.tier, F, True):
        ctx.states += 1
        r = put(l, c)
        chk(ctx, rop(c), eL(r) if r is not None else VALUE, x, *c.values())
    for l2 in BASE:
        chk(ctx, R_D, eL(l2 // DAY_NS * DAY_NS + l % DAY_NS), x, *cal.fields(l2)[:3])
        chk(ctx, R_T, eL(l // DAY_NS * DAY_NS + l2 % DAY_NS), x, mkT(l2 % DAY_NS))
    ctx.sample(f"{x}: all subsets")


def run_days(ctx, y):
    """every day of the year, given every month, other years and the days at the end of months"""
    cs = [{"month": m} for m in range(1, 13)] + [{"year": v} for v in (1, 2000, 2023, 2024, 2100)] + [{"day": d} for d in (1, 28, 29, 30, 31)] + [{"hour": 5}, {"nanosecond": 7}]
    for n in range(cal.days(y, 1, 1), cal.days(y + 1, 1, 1)):
        l = n * DAY_NS + 45_296 * NS + 123
        d, x, o = Date(*cal.civil(n)), mkL(l), mkO(l - 3600 * NS, 3600)
        z, sy = mkI(l).to_tz("UTC"), mkI(l).to_system_tz()
        off = (view(sy)[2] // NS)
        sl = l + off * NS
        for c in cs:
            r = put(l, c)
            ctx.states += 5
            bad = r is None
            chk(ctx, rop(c), VALUE if bad else eL(r), x, *c.values())
            if "year" in c or "month" in c or "day" in c:
                chk(ctx, rop(c), VALUE if bad else ("D", *cal.fields(r)[:3]), d, *c.values())
            chk(ctx, rop(c, "ignore_dst=True"), VALUE if bad else eO(r - 3600 * NS, 3600), o, *c.values())
            chk(ctx, rop(c), VALUE if bad else eZ("UTC", r, 0), z, *c.values())
            if off == 0 and c.get("year") != 1:  # (the system type may refuse the ends of the range)
                chk(ctx, rop(c), VALUE if bad else eS(r, 0), sy, *c.values())
    ctx.sample(f"every day of {y} x {len(cs)} replacements x 5 types")


def run_offset(ctx, i):
    l = BASE[i]
    for off in OFFS:
        if not cal.in_range(l - off * NS):
            continue
        x = mkO(l - off * NS, off)

        def e(r, o):
            return eO(r - o * NS, o) if r is not None and cal.in_range(r) and cal.in_range(r - o * NS) else RANGE

        for c in combos(ctx.tier, F, off == 3600 or ctx.thorough):
            ctx.states += 1
            chk(ctx, rop(c, "ignore_dst=True"), e(put(l, c), off), x, *c.values())
        # with the offset replaced as well
        for c in combos("quick", F[:4]):
            r = put(l, c)
            for o2 in (0, 86399, -86399, 3601):
                ctx.states += 1
                chk(ctx, rop(c, f"offset=TimeDelta(seconds={o2}), ignore_dst=True"), e(r, o2), x, *c.values())
            chk(ctx, rop(c, "offset=-4, ignore_dst=True"), e(r, -4 * 3600), x, *c.values())
        for o2 in (86400, -86400, 10**6):
            chk(ctx, rop((), f"offset=TimeDelta(seconds={o2}), ignore_dst=True"), VALUE, x)
        chk(ctx, rop((), "offset=24, ignore_dst=True"), VALUE, x)
        chk(ctx, rop((), "offset=TimeDelta(nanoseconds=1), ignore_dst=True"), VALUE, x)
        for l2 in BASE:
            chk(ctx, R_DO, e(l2 // DAY_NS * DAY_NS + l % DAY_NS, off), x, *cal.fields(l2)[:3])
            chk(ctx, R_TO, e(l // DAY_NS * DAY_NS + l2 % DAY_NS, off), x, mkT(l2 % DAY_NS))
    ctx.sample(f"{x}: all subsets")


def run_zoned(ctx, i, j, system):
    k, starts = ZN[i]
    z = pool.zone(k)
    if system:
        if not os.path.exists(os.path.join(tzmodel.ZONEINFO, k)):
            return
        os.environ["TZ"] = k
        time.tzset()
        vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    sub = Sub(z, system)
    l = starts[j]
    sol = z.solve(l // NS)[1]
    fields = {"year": (l_year(l), 2024, 10000), "month": (cal.fields(l)[1], 6, 13), "day": (cal.fields(l)[2], 1, 31), "hour": (0, 1, 2, 3, 24), "minute": (0, 30, 45, 60), "second": (59,), "nanosecond": (0, 10**9)}
    others = [L_(2023, 3, 26, 2, 30), L_(2023, 10, 29, 2, 30), L_(2023, 3, 12, 2, 30), L_(2018, 11, 4, 0, 30), L_(2011, 12, 30, 12), L_(1972, 1, 7, 0, 20), l, l + DAY_NS, l + 1]
    for s in sol:
        u = s * NS + l % NS
        x = sub.mk(u)
        prev = (l - u) // NS
        for vs in itertools.product(*([None, *fields[f]] for f in F[:5])):
            c = {f: v for f, v in zip(F, vs) if v is not None}
            r = put(l, c)
            ctx.states += 1
            for mode in MODES if ctx.thorough or len(c) <= 2 else (None,):
                e = sub.to(r, mode, prev) if r is not None else VALUE
                chk(ctx, rop(c, f"disambiguate={mode!r}" if mode else ""), e, x, *c.values())
        for vs in itertools.product(*([None, *fields[f]] for f in F[3:])):
            c = {f: v for f, v in zip(F[3:], vs) if v is not None}
            r = put(l, c)
            ctx.states += 1
            e = sub.to(r, None, prev) if r is not None else VALUE
            chk(ctx, rop(c), e, x, *c.values())
        for l2 in others:
            a, b = l2 // DAY_NS * DAY_NS + l % DAY_NS, l // DAY_NS * DAY_NS + l2 % DAY_NS
            ctx.states += 2
            chk(ctx, R_D, sub.to(a, None, prev), x, *cal.fields(l2)[:3])
            chk(ctx, R_T, sub.to(b, None, prev), x, mkT(l2 % DAY_NS))
            for mode in MODES[1:]:
                chk(ctx, R_DM, sub.to(a, mode, prev), x, *cal.fields(l2)[:3], mode)
                chk(ctx, R_TM, sub.to(b, mode, prev), x, mkT(l2 % DAY_NS), mode)
    ctx.sample(f"{x}")


def l_year(l):
    return cal.fields(l)[0]


def run_tz(ctx):
    """zone replaced together with fields"""
    for k, starts in ZN:
        z = pool.zone(k)
        for k2, starts2 in ZN:
            z2 = pool.zone(k2)
            sub = Sub(z2, False)
            for l in starts + starts2:
                kind, sol = z.solve(l // NS)
                if kind != "ok":
                    continue
                for s in sol:
                    u = s * NS + l % NS
                    x = mkI(u).to_tz(k)
                    prev = (l - u) // NS
                    for c in [{}] + [dict(zip(F[:5], cal.fields(t)[:5])) for t in starts2] + [{"day": 32}, {"nanosecond": 5}, {"hour": 2, "minute": 30}, {"second": 7}, {"minute": 31}, {"hour": 2}, {"minute": 45, "second": 1, "nanosecond": 1}]:
                        r = put(l, c)
                        for mode in MODES:
                            # the offset is only kept within the same zone
                            m = mode if mode or k2 == k else "compatible"
                            ctx.states += 1
                            e = sub.to(r, m, prev) if r is not None else VALUE
                            chk(ctx, rop(c, f"tz={k2!r}" + (f", disambiguate={mode!r}" if mode else "")), e, x, *c.values())
    for k in ("Nowhere/Land", "", "../etc/passwd", "Europe/Amsterdam "):
        chk(ctx, rop((), f"tz={k!r}"), Err(ValueError, KeyError, OSError), x)
    ctx.sample(f"{x}: zones replaced")


def run_keywords(ctx):
    xs = {
        "D": (Date(2020, 1, 2), ("hour", "nanosecond", "tz", "offset", "foo")),
        "YM": (YearMonth(2020, 1), ("day", "hour", "foo")),
        "MD": (MonthDay(1, 2), ("year", "hour", "foo")),
        "T": (mkT(0), ("year", "day", "microsecond", "tzinfo", "fold", "foo")),
        "L": (mkL(BASE[0]), ("microsecond", "tzinfo", "fold", "offset", "tz", "foo")),
        "O": (mkO(BASE[0], 3600), ("microsecond", "tzinfo", "fold", "tz", "foo")),
        "Z": (mkI(BASE[0]).to_tz("Europe/Amsterdam"), ("microsecond", "tzinfo", "fold", "offset", "foo")),
        "S": (mkS(BASE[0]), ("microsecond", "tzinfo", "fold", "offset", "tz", "foo")),
    }
    for n, (x, kws) in xs.items():
        for kw in kws:
            for v in ("0", "1", "None", "'x'"):
                ctx.states += 1
                extra = ", ignore_dst=True" if n == "O" else ""
                chk(ctx, Op(f"x.replace({kw}={v}{extra})", "x"), TYPE, x)
                if n != "MD" or kw != "month":
                    chk(ctx, Op(f"x.replace(month=2, {kw}={v}{extra})" if n != "T" else f"x.replace(hour=2, {kw}={v}{extra})", "x"), TYPE, x)
    ctx.sample("forbidden keywords")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    os.environ["TZ"] = "UTC"
    time.tzset()
    globals()["run_" + kind](ctx, *a)
