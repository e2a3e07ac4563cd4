from __future__ import annotations

import itertools

from whenever import Date, DateDelta, Weekday, YearMonth, MonthDay

from .. import cal
from ..vals import RANGE, VALUE, Op, chk, lit, mkDD, report

ID = "C01"
TITLE = "Dates follow the proleptic Gregorian calendar, including all arithmetic"

WD = [None, *(Weekday(i) for i in range(1, 8))]

BASE_YEARS = [1, 2, 4, 99, 100, 400, 1582, 1899, 1900, 1904, 1970, 1999, 2000, 2001,
              2023, 2024, 2025, 2100, 2399, 2400, 9996, 9998, 9999]
MONTHS = [0, 1, -1, 2, -2, 3, 6, -6, 11, -11, 12, -12, 13, -13, 23, 24, -25, 36, 47, 48,
          -48, 49, 1199, 1200, -1200, 4800, -4800, 23975, 24000, 9999 * 12 - 1, -9999 * 12 + 1]
DAYS = [0, 1, -1, 2, 6, 7, -7, 27, 28, -28, 29, -29, 30, 31, -31, 59, 60, -60, 364, 365,
        -365, 366, -366, 1461, 36524, -36525, 146097, -146097, 3652058, -3652058]


def bounds(tier):
    return {
        "enumeration": "all 3652059 dates (fields, weekday, text, successor)",
        "invalid": "every (year, month) with day 0 and last+1; out of range fields",
        "arithmetic": f"every day of years {BASE_YEARS if tier=='quick' else 'BASE + each year of 1896..2104'}"
        f" x {len(MONTHS)} month shifts x {len(DAYS)} day shifts, all call forms",
        "far": f"from {len(FAR)} dates to every {FAR_STEP[tier]}th date by days, to every month by months",
    }


def shards(tier):
    step = 250
    out = [("all", y, min(y + step, 10000)) for y in range(1, 10000, step)]
    ys = BASE_YEARS if tier == "quick" else sorted(set(BASE_YEARS) | set(range(1896, 2105)))
    out += [("arith", y) for y in ys]
    out += [("forms",), ("huge",)] + [("far", i) for i in range(16)]
    return out


o_new = Op("Date(y, m, d)", "y m d")
o_str = Op("str(Date(y, m, d))", "y m d")
o_wd = Op("Date(y, m, d).day_of_week()", "y m d")
o_next = Op("Date(y, m, d).add(days=1)", "y m d")
o_prev = Op("Date(y, m, d).subtract(days=1)", "y m d")
o_parse = Op("Date.parse_common_iso(s)", "s")
o_addmd = Op("x.add(months=mo, days=dd)", "x mo dd")
o_submd = Op("x.subtract(months=mo, days=dd)", "x mo dd")
FORMS = [
    (Op("x + delta", "x delta"), 1),
    (Op("x - delta", "x delta"), -1),
    (Op("x.add(delta)", "x delta"), 1),
    (Op("x.subtract(delta)", "x delta"), -1),
    (Op("x.add(years=int(delta.in_years_months_days()[0]), months=delta.in_years_months_days()[1], days=delta.in_months_days()[1])", "x delta"), 1),
    (Op("x.subtract(years=delta.in_years_months_days()[0], months=delta.in_years_months_days()[1], days=delta.in_years_months_days()[2])", "x delta"), -1),
]
o_weeks = Op("x.add(years=y, months=m, weeks=wk, days=d)", "x y m wk d")
o_weeks_sub = Op("x.subtract(years=y, months=m, weeks=wk, days=d)", "x y m wk d")


def run_all(ctx, y0, y1):
    n = cal.days(y0, 1, 1)
    for y in range(y0, y1):
        for m in range(1, 13):
            last = cal.dim(y, m)
            for d in range(1, last + 1):
                x = Date(y, m, d)
                s = f"{y:04d}-{m:02d}-{d:02d}"
                if (x.year, x.month, x.day) != (y, m, d):
                    chk(ctx, o_new, ("D", y, m, d), y, m, d)
                if str(x) != s:
                    chk(ctx, o_str, s, y, m, d)
                ym, md = x.year_month(), x.month_day()
                if (ym.year, ym.month, md.month, md.day) != (y, m, m, d):
                    chk(ctx, Op("(x.year_month(), x.month_day())", "x"), (("YM", y, m), ("MD", m, d)), x)
                if x.day_of_week() is not WD[n % 7 + 1]:
                    chk(ctx, o_wd, WD[n % 7 + 1], y, m, d)
                if d < last:
                    e = (y, m, d + 1)
                elif m < 12:
                    e = (y, m + 1, 1)
                else:
                    e = (y + 1, 1, 1)
                if e[0] < 10000:
                    z = x.add(days=1)
                    if (z.year, z.month, z.day) != e:
                        chk(ctx, o_next, ("D", *e), y, m, d)
                    if z.subtract(days=1) != x:
                        chk(ctx, o_prev, ("D", y, m, d), *e)
                    if not (x < z and x <= z and z > x and z >= x and x != z) or x == z or z < x or z <= x:
                        chk(ctx, Op("(x < z, x <= z, z > x, z >= x, x != z, x == z, z < x, z <= x)", "x z"),
                            (True,) * 5 + (False,) * 3, x, z)
                if Date.parse_common_iso(s) != x:
                    chk(ctx, o_parse, ("D", y, m, d), s)
                n += 1
            ctx.states += last
            ctx.transitions += last * 8
            ctx.traces += last * 8
            for bad in (0, last + 1, -1, 32):
                chk(ctx, o_new, VALUE, y, m, bad)
                if bad >= 0:
                    chk(ctx, o_parse, VALUE, f"{y:04d}-{m:02d}-{bad:02d}")
        for m in (0, 13, -1):
            chk(ctx, o_new, VALUE, y, m, 1)
    ctx.sample(f"Date({y0},1,1).. Date({y1 - 1},12,31): fields, weekday, text, +1 day, -1 day, order")


def run_arith(ctx, y):
    n0 = cal.days(y, 1, 1)
    i = 0
    for n in range(n0, n0 + (366 if cal.leap(y) else 365)):
        ymd = cal.civil(n)
        x = Date(*ymd)
        ctx.states += 1
        for mo in MONTHS:
            try:
                base = cal.days(*cal.add_months(*ymd, mo))
            except cal.OutOfRange:
                base = None
            dds = DAYS
            for dd in dds:
                if base is None or not 0 <= base + dd < cal.NDAYS:
                    exp = RANGE
                else:
                    exp = ("D", *cal.civil(base + dd))
                chk(ctx, o_addmd, exp, x, mo, dd)
        # one subtraction per (month, day) pair, rotating through the days
        for mo in MONTHS:
            i += 1
            for dd in (DAYS[i % len(DAYS)], 0, 1):
                chk(ctx, o_submd, model(ymd, -mo, -dd), x, mo, dd)
    ctx.sample(f"every day of {y} x {len(MONTHS)} months x {len(DAYS)} days; e.g. Date({y},1,31).add(months=1, days=28)")


def model(ymd, mo, dd):
    try:
        return ("D", *cal.shift_date(*ymd, mo, dd))
    except cal.OutOfRange:
        return RANGE


def run_forms(ctx):
    dates = [(2024, 2, 29), (2023, 1, 31), (2000, 12, 31), (1900, 2, 28), (1, 1, 1), (9999, 12, 31),
             (2023, 3, 31), (2024, 1, 1), (2100, 3, 1), (4, 2, 29), (1999, 8, 30)]
    for ymd in dates:
        x = Date(*ymd)
        for mo, dd in itertools.product(MONTHS, DAYS):
            if mo * dd < 0:
                continue
            delta = mkDD(mo, dd)
            ctx.states += 1
            for op, sign in FORMS:
                chk(ctx, op, model(ymd, sign * mo, sign * dd), x, delta)
        for yy, m, wk, d in itertools.product((0, 1, -1, 4, 100), (0, 1, -13, 11), (0, 1, -5), (0, 1, -8, 30)):
            ctx.states += 1
            chk(ctx, o_weeks, model(ymd, yy * 12 + m, wk * 7 + d), x, yy, m, wk, d)
            chk(ctx, o_weeks_sub, model(ymd, -yy * 12 - m, -wk * 7 - d), x, yy, m, wk, d)
        # kinds of single keyword
        for k, mul in (("years", (12, 0)), ("months", (1, 0)), ("weeks", (0, 7)), ("days", (0, 1))):
            for v in (0, 1, -1, 3, -4, 12, 400, -400):
                chk(ctx, Op(f"x.add({k}=v)", "x v"), model(ymd, mul[0] * v, mul[1] * v), x, v)
                chk(ctx, Op(f"x.subtract({k}=v)", "x v"), model(ymd, -mul[0] * v, -mul[1] * v), x, v)
        chk(ctx, Op("x.add()", "x"), ("D", *ymd), x)
        chk(ctx, Op("x.subtract()", "x"), ("D", *ymd), x)
        chk(ctx, Op("x.year_month()", "x"), ("YM", *ymd[:2]), x)
        chk(ctx, Op("x.month_day()", "x"), ("MD", *ymd[1:]), x)
        chk(ctx, Op("hash(x) == hash(Date(x.year, x.month, x.day)) and len({x, Date(x.year, x.month, x.day)}) == 1", "x"), True, x)
        for r in range(4):
            for fields in itertools.combinations(("year", "month", "day"), r):
                for vals in itertools.product((1, 2, 12, 13, 29, 31, 2023, 2024, 0, 10000), repeat=r):
                    kw = dict(zip(fields, vals))
                    t = tuple(kw.get(f, c) for f, c in zip(("year", "month", "day"), ymd))
                    ok = 1 <= t[0] <= 9999 and 1 <= t[1] <= 12 and 1 <= t[2] <= cal.dim(t[0], t[1])
                    chk(ctx, Op("x.replace(**kw)", "x kw"), ("D", *t) if ok else VALUE, x, kw)
    chk(ctx, Op("Date.MIN", ""), ("D", 1, 1, 1))
    chk(ctx, Op("Date.MAX", ""), ("D", 9999, 12, 31))
    ctx.sample("x + DateDelta(months=1, days=3) == x.add(months=1, days=3) == ... on 11 dates")
    # all year-month / month-day projections
    for y in (1, 4, 1900, 2000, 2023, 2024, 9999):
        for m in range(1, 13):
            for d in range(1, cal.dim(y, m) + 1):
                x = Date(y, m, d)
                chk(ctx, Op("x.year_month()", "x"), ("YM", y, m), x)
                chk(ctx, Op("x.month_day()", "x"), ("MD", m, d), x)
                chk(ctx, Op("x.year_month().on_day(x.day)", "x"), ("D", y, m, d), x)
                chk(ctx, Op("x.month_day().in_year(x.year)", "x"), ("D", y, m, d), x)


FAR = [(1, 1, 1), (1, 2, 28), (4, 2, 29), (1582, 10, 15), (1899, 12, 31), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29), (2000, 3, 31), (2023, 1, 30), (2023, 5, 31),
       (2024, 2, 29), (2024, 12, 31), (4000, 2, 29), (4999, 8, 29), (9999, 12, 31)]
FAR_STEP = {"quick": 53, "thorough": 3}


def run_far(ctx, i):
    """every distance"""
    y, m, d = FAR[i]
    x = Date(y, m, d)
    n0 = cal.days(y, m, d)
    ks = [*range(i % FAR_STEP[ctx.tier], cal.NDAYS, FAR_STEP[ctx.tier]), 0, cal.NDAYS - 1]
    add, sub = x.add, x.subtract
    for n in ks:
        k = n - n0
        e = cal.civil(n)
        z = add(days=k)
        if (z.year, z.month, z.day) != e:
            chk(ctx, Op("x.add(days=k)", "x k"), ("D", *e), x, k)
        if sub(days=-k) != z:
            chk(ctx, Op("x.subtract(days=k)", "x k"), ("D", *e), x, -k)
        if k % 7 == 0:
            chk(ctx, Op("x.add(weeks=k)", "x k"), ("D", *e), x, k // 7)
    for k in range(-(y * 12 + m - 13), (9999 - y) * 12 + 13 - m):
        e = cal.add_months(y, m, d, k)
        z = add(months=k)
        if (z.year, z.month, z.day) != e:
            chk(ctx, Op("x.add(months=k)", "x k"), ("D", *e), x, k)
        if sub(months=-k) != z:
            chk(ctx, Op("x.subtract(months=k)", "x k"), ("D", *e), x, -k)
        if k % 12 == 0:
            chk(ctx, Op("x.add(years=k)", "x k"), ("D", *e), x, k // 12)
    ctx.states += len(ks) + 119_988
    ctx.transitions += 2 * len(ks) + 2 * 119_988
    ctx.traces += 2 * len(ks) + 2 * 119_988
    ctx.sample(f"{x} + every {FAR_STEP[ctx.tier]}th number of days, + every number of months")


def run_huge(ctx):
    for y, m, d in [(0, 1, 1), (10000, 1, 1), (-1, 1, 1), (2**31, 1, 1), (2**64, 1, 1), (1, 2**40, 1), (1, 1, 2**70)]:
        chk(ctx, o_new, RANGE, y, m, d)
    for x in (Date(1, 1, 1), Date(2024, 2, 29), Date(9999, 12, 31)):
        ctx.states += 1
        for e in (5, 7, 8, 9, 10, 12, 18, 19, 25, 40):
            for v in (10**e, -(10**e), 2**31 * 10**e):
                for k in ("years", "months", "weeks", "days"):
                    exp = model((x.year, x.month, x.day), {"years": 12 * v, "months": v}.get(k, 0), {"weeks": 7 * v, "days": v}.get(k, 0))
                    chk(ctx, Op(f"x.add({k}=v)", "x v"), exp, x, v)
    ctx.sample("Date.MAX.add(days=10**25) -> range error")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
