from __future__ import annotations

import itertools

from whenever import Date, LocalDateTime, MonthDay, Time, YearMonth

from .. import cal
from ..cal import DAY_NS, NS
from ..vals import TYPE, VALUE, Op, chk, mkT, mkL

ID = "C25"
TITLE = "Times, year-months and month-days are faithful, ordered, composable values"

NSS = [0, 1, 9, 10, 999, 1000, 1001, 999_999, 1_000_000, 100_000_000, 123_456_789, 500_000_000, 999_999_000, 999_999_999]


def bounds(tier):
    return {
        "YearMonth": "all 119988 year-months; all ordered pairs within 4 years windows",
        "MonthDay": "all 366 month-days, all ordered pairs, all years 1..9999 for Feb 29 and 28",
        "Time": f"all 86400 seconds; {len(NSS)} nanosecond parts on 1 second in 97; pairs of 160 boundary times",
    }


def shards(tier):
    return [("ym", y) for y in range(1, 10000, 500)] + [("md", m) for m in range(1, 13)] + [("time", h) for h in range(24)] + [
        ("pairs",), ("ymd", 1), ("ymd", 1998), ("ymd", 9996), ("replace",)]


REL = Op("(a < b, a <= b, a == b, a != b, a > b, a >= b, a != b or hash(a) == hash(b))", "a b")


def rel(ctx, x, y, a, b):
    ctx.transitions += 7
    ctx.traces += 7
    got = (x < y, x <= y, x == y, x != y, x > y, x >= y, x != y or hash(x) == hash(y))
    exp = (a < b, a <= b, a == b, a != b, a > b, a >= b, True)
    if got != exp:
        chk(ctx, REL, exp, x, y)


def run_ym(ctx, y0):
    for y in range(y0, min(y0 + 500, 10000)):
        for m in range(1, 13):
            ctx.states += 1
            x = YearMonth(y, m)
            s = f"{y:04d}-{m:02d}"
            if (x.year, x.month, str(x), x.format_common_iso()) != (y, m, s, s):
                chk(ctx, Op("(YearMonth(y, m), str(YearMonth(y, m)))", "y m"), (("YM", y, m), s), y, m)
            if YearMonth.parse_common_iso(s) != x:
                chk(ctx, Op("YearMonth.parse_common_iso(s)", "s"), ("YM", y, m), s)
            ctx.transitions += 4
            ctx.traces += 4
            for d in (0, 1, 28, 29, 30, 31, 32):
                ok = 1 <= d <= cal.dim(y, m)
                if ok:
                    ctx.transitions += 1
                    ctx.traces += 1
                    z = x.on_day(d)
                    if (z.year, z.month, z.day) != (y, m, d):
                        chk(ctx, Op("x.on_day(d)", "x d"), ("D", y, m, d), x, d)
                else:
                    chk(ctx, Op_on_day, VALUE, x, d)
        for m in (0, 13):
            chk(ctx, o_ym, VALUE, y, m)
            chk(ctx, Op("YearMonth.parse_common_iso(s)", "s"), VALUE, f"{y:04d}-{m:02d}")
    if y0 == 1:
        chk(ctx, o_ym, VALUE, 0, 1)
        chk(ctx, o_ym, VALUE, 10000, 1)
        chk(ctx, Op("YearMonth.parse_common_iso('0000-01')", ""), VALUE)
        chk(ctx, Op("(YearMonth.MIN, YearMonth.MAX)", ""), (("YM", 1, 1), ("YM", 9999, 12)))
    ctx.sample(f"YearMonth {y0:04d}-01 .. +500 years: text, parse, on_day 0..32")


o_ym = Op("YearMonth(y, m)", "y m")
Op_on_day = Op("x.on_day(d)", "x d")


def run_ymd(ctx, y0):
    vs = [(y, m) for y in range(y0, y0 + 4) for m in range(1, 13)]
    for a in vs:
        for b in vs:
            ctx.states += 1
            rel(ctx, YearMonth(*a), YearMonth(*b), a, b)
    for a in vs:
        for y in (0, 1, 9999, 10000):
            chk(ctx, Op("x.replace(year=y)", "x y"), ("YM", y, a[1]) if 1 <= y <= 9999 else VALUE, YearMonth(*a), y)
        for m in (0, 1, 12, 13):
            chk(ctx, Op("x.replace(month=m)", "x m"), ("YM", a[0], m) if 1 <= m <= 12 else VALUE, YearMonth(*a), m)
            chk(ctx, Op("x.replace(month=m, year=2000)", "x m"), ("YM", 2000, m) if 1 <= m <= 12 else VALUE, YearMonth(*a), m)
        chk(ctx, Op("x.replace(day=3)", "x"), TYPE, YearMonth(*a))
    ctx.sample("all ordered pairs of year-months in a 4-year window under six comparisons")


def run_md(ctx, m):
    allmd = [(mm, d) for mm in range(1, 13) for d in range(1, (29 if mm == 2 else cal.MDAYS[mm]) + 1)]
    for d in range(0, 33):
        ok = (m, d) in allmd
        ctx.states += 1
        chk(ctx, Op("MonthDay(m, d)", "m d"), ("MD", m, d) if ok else VALUE, m, d)
        s = f"--{m:02d}-{d:02d}"
        chk(ctx, Op("MonthDay.parse_common_iso(s)", "s"), ("MD", m, d) if ok else VALUE, s)
        if not ok:
            continue
        x = MonthDay(m, d)
        chk(ctx, Op("str(x)", "x"), s, x)
        chk(ctx, Op("x.format_common_iso()", "x"), s, x)
        chk(ctx, Op("x.is_leap()", "x"), (m, d) == (2, 29), x)
        for y in (range(1, 10000) if m == 2 and d >= 28 else (1, 4, 100, 1900, 2000, 2023, 2024, 9999, 0, 10000)):
            good = 1 <= y <= 9999 and d <= cal.dim(y, m)
            chk(ctx, o_in_year, ("D", y, m, d) if good else VALUE, x, y)
        for m2, d2 in allmd:
            ctx.states += 1
            rel(ctx, x, MonthDay(m2, d2), (m, d), (m2, d2))
        for m2 in range(0, 14):
            chk(ctx, Op("x.replace(month=m)", "x m"), ("MD", m2, d) if (m2, d) in allmd else VALUE, x, m2)
        for d2 in range(0, 33):
            chk(ctx, Op("x.replace(day=d)", "x d"), ("MD", m, d2) if (m, d2) in allmd else VALUE, x, d2)
        for m2, d2 in ((2, 29), (12, 31), (4, 31), (1, 1)):
            chk(ctx, Op("x.replace(month=m, day=d)", "x m d"), ("MD", m2, d2) if (m2, d2) in allmd else VALUE, x, m2, d2)
        chk(ctx, Op("x.replace(year=3)", "x"), TYPE, x)
    if m == 1:
        chk(ctx, Op("(MonthDay.MIN, MonthDay.MAX)", ""), (("MD", 1, 1), ("MD", 12, 31)))
        for bad in ((0, 1), (13, 1), (-1, 1)):
            chk(ctx, Op("MonthDay(m, d)", "m d"), VALUE, *bad)
    ctx.sample(f"every day of month {m}: text, parse, replace, in_year, order against all 366")


o_in_year = Op("x.in_year(y)", "x y")
o_time = Op("Time(h, m, s, nanosecond=ns)", "h m s ns")
o_tstr = Op("str(Time(h, m, s, nanosecond=ns))", "h m s ns")


def run_time(ctx, h):
    for sec in range(3600):
        m, s = divmod(sec, 60)
        for ns in NSS if sec % 97 == 0 or sec in (0, 1, 59, 60, 3599) else (0, 1, 999_999_999):
            ctx.states += 1
            tod = (h * 3600 + sec) * NS + ns
            x = Time(h, m, s, nanosecond=ns)
            txt = cal.tod_str(tod)
            ctx.transitions += 7
            ctx.traces += 7
            if (x.hour, x.minute, x.second, x.nanosecond) != (h, m, s, ns):
                chk(ctx, o_time, ("T", tod), h, m, s, ns)
            if str(x) != txt or x.format_common_iso() != txt:
                chk(ctx, o_tstr, txt, h, m, s, ns)
            if Time.parse_common_iso(txt) != x:
                chk(ctx, Op("Time.parse_common_iso(s)", "s"), ("T", tod), txt)
            y = Time.from_py_time(x.py_time())
            if (y.hour, y.minute, y.second, y.nanosecond) != (h, m, s, ns // 1000 * 1000):
                chk(ctx, Op("Time.from_py_time(x.py_time())", "x"), ("T", tod // 1000 * 1000), x)
            for n in range(len(txt.partition(".")[2]), 10):
                if n and sec % 97 == 0:
                    t2 = txt + ("." if "." not in txt else "") + "0" * (n - len(txt.partition(".")[2]))
                    chk(ctx, Op("Time.parse_common_iso(s)", "s"), ("T", tod), t2)
    if h == 0:
        for t in ((24, 0, 0, 0), (-1, 0, 0, 0), (0, 60, 0, 0), (0, -1, 0, 0), (0, 0, 60, 0), (0, 0, -1, 0), (0, 0, 0, -1), (0, 0, 0, NS), (0, 0, 0, 10**12)):
            chk(ctx, o_time, VALUE, *t)
        for s in ("24:00:00", "23:60:00", "23:59:60", "00:00", "0:00:00", "00:00:00.", "00:00:00.0000000001", "000000", "", "00:00:00Z", " 00:00:00"):
            chk(ctx, Op("Time.parse_common_iso(s)", "s"), VALUE, s)
        chk(ctx, Op("(Time.MIDNIGHT, Time.NOON, Time.MAX, Time())", ""), (("T", 0), ("T", DAY_NS // 2), ("T", DAY_NS - 1), ("T", 0)))
    ctx.sample(f"Time({h}, 0..59, 0..59, nanosecond in {NSS[:5]}...)")


def run_pairs(ctx):
    tods = sorted({((h * 60 + m) * 60 + s) * NS + ns for h in (0, 1, 12, 23) for m in (0, 1, 59) for s in (0, 1, 59) for ns in (0, 1, 1000, 999_999_999)})
    dates = [(1, 1, 1), (2024, 2, 29), (9999, 12, 31)]
    objs = [mkT(t) for t in tods]
    for a, x in zip(tods, objs):
        for b, y in zip(tods, objs):
            ctx.states += 1
            rel(ctx, x, y, a, b)
        chk(ctx, Op("(x == None, x == str(x), x != 0)", "x"), (False, False, True), x)
        for d in dates:
            chk(ctx, Op("x.on(d)", "x d"), ("L", cal.days(*d) * DAY_NS + a), x, Date(*d))
            chk(ctx, Op("d.at(x)", "x d"), ("L", cal.days(*d) * DAY_NS + a), x, Date(*d))
            chk(ctx, Op("(d.at(x).time(), d.at(x).date())", "x d"), (("T", a), ("D", *d)), x, Date(*d))
            chk(ctx, Op("d.at(x).time() == x and hash(d.at(x).time()) == hash(x) and d.at(x).date() == d and x.on(d) == d.at(x)", "x d"), True, x, Date(*d))
    ctx.sample(f"all ordered pairs of {len(tods)} boundary times")


def run_replace(ctx):
    for a in (0, DAY_NS - 1, 12 * 3600 * NS + 34 * 60 * NS + 56 * NS + 789, 1, NS, 500_000_000, 7 * 60 * NS + 120_000, 23 * 3600 * NS + 123_456_000, 3600 * NS + 999_999_990):
        x = mkT(a)
        base = (a // (3600 * NS), a // (60 * NS) % 60, a // NS % 60, a % NS)
        names = ("hour", "minute", "second", "nanosecond")
        for r in range(5):
            for f in itertools.combinations(names, r):
                for vals in itertools.product(*[{"hour": (0, 23, 24, -1), "minute": (0, 59, 60), "second": (0, 59, 60), "nanosecond": (0, 1, 999_999_999, NS, -1)}[k] for k in f]):
                    kw = dict(zip(f, vals))
                    t = [kw.get(k, v) for k, v in zip(names, base)]
                    ok = 0 <= t[0] < 24 and 0 <= t[1] < 60 and 0 <= t[2] < 60 and 0 <= t[3] < NS
                    ctx.states += 1
                    chk(ctx, Op_trep, ("T", ((t[0] * 60 + t[1]) * 60 + t[2]) * NS + t[3]) if ok else VALUE, x, kw)
        for k in ("tzinfo", "fold", "microsecond", "foo"):
            chk(ctx, Op("x.replace(**{k: 0})", "x k"), TYPE, x, k)
    ctx.sample("Time.replace over every subset of fields with edge values")


Op_trep = Op("x.replace(**kw)", "x kw")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
