"""Operations leave nothing behind"""
from __future__ import annotations

import gc
import os
import re
import time

import whenever
from whenever import *  # noqa: F403
from whenever import MonthDay, YearMonth

from .. import hist, leaks
from ..hist import PARIS
from ..vals import lit

ID = "C35"
TITLE = "Operations leave no memory, references or files behind"
ASSUMPTIONS = ["memory: blocks of Python's allocator, and heap memory in use as malloc reports it; references: to the operands, the library's types and module, ZoneInfo objects, standard types",
               "growth that stops (caches of up to 30,000 entries) is no leak"]
RULE = "states: programs x operand values; transitions: evaluations; traces: measurements"
N = {"quick": 15_000, "thorough": 60_000}


def bounds(tier):
    return {
        "programs": "every operation, method, constructor of the stubs (also with wrong arguments) on " + ("all" if tier == "thorough" else "every 6th combination, and the first of each program for each type of outcome,") + " of the pool's values, repeated 15 to 1600 times",
        "distinct operands": f"{len(DISTINCT)} operations, each on {3 * N[tier]} different operands",
        "chains": f"{len(CHAINS)} operations that give a value of the type of their operand, applied to their own result {3 * N[tier]} times",
    }


def shards(tier):
    return [("programs", i, 80) for i in range(80)] + [("distinct", i) for i in range(0, len(DISTINCT), 4)] + [("chains", i) for i in range(0, len(CHAINS), 8)]


def init_worker():
    os.environ["TZ"] = PARIS
    time.tzset()


ZONES = ["Europe/Paris", "America/New_York", "Asia/Tokyo", "Australia/Lord_Howe", "Africa/Casablanca", "UTC", "Asia/Kolkata"]
SETUP = f"import os, time\nos.environ['TZ'] = {PARIS!r}; time.tzset()\nimport copy, pickle, datetime, zoneinfo, whenever\nfrom mc import leaks\nfrom whenever import *\nfrom whenever import YearMonth, MonthDay, SkippedTime, RepeatedTime, InvalidOffset\n"
ZSETUP = f"ZONES = {ZONES}\n"


def program(src, f, vals):
    """src with the names of its operands"""
    names = f.__code__.co_varnames[: f.__code__.co_argcount]
    return f"lambda {', '.join(names)}: {src}", ", ".join(lit(v) for v in vals)


def run_programs(ctx, i, n):
    fds = leaks.open_files()
    gc.collect()
    gc.disable()
    found = 0
    progs = [*hist.chosen(i, n, 1 if ctx.thorough else 6)]
    gc.freeze()  # so that collections take little time
    for _, src, f, vals in progs:
        ctx.states += 1
        ctx.transitions += 15
        ctx.traces += 1
        if leaks.quick(f, vals) or leaks.quick(f, vals, 50, 350):
            continue
        got = leaks.what_stays(f, *vals)
        ctx.outcomes["measured again"] += 1
        if got != "nothing":
            lam, ops = program(src, f, vals)
            ctx.fail(f"leaks.what_stays({lam}, {ops})", "nothing", got, setup=SETUP, key=f"{src} @ {ops}", why="per call")
            found += 1
            if found > 5:
                break
    gc.enable()
    gc.unfreeze()
    gc.collect()
    if leaks.open_files() > fds + 3:
        ctx.fail("open files", str(fds), str(leaks.open_files()))
    ctx.sample(f"{src} with {lit(vals)}"[:150])


# ---- ever new operands ------------------------------------------------
MAKE = {
    "i": "Instant.from_timestamp_nanos((n - 30_000) * 86_400_123_456_789)",
    "o": "OffsetDateTime(1 + n % 9998, 1 + n % 12, 1 + n % 28, n % 24, n % 60, nanosecond=n, offset=TimeDelta(seconds=n % 86_000 - 43_000))",
    "z": "Instant.from_timestamp_nanos(n * 86_400_123_456).to_tz('Europe/Paris')",
    "s": "Instant.from_timestamp_nanos(n * 86_400_123_456).to_system_tz()",
    "l": "LocalDateTime(1 + n % 9998, 1 + n % 12, 1 + n % 28, n % 24, n % 60, nanosecond=n)",
    "d": "Date(1 + n % 9998, 1 + n // 28 % 12, 1 + n % 28)",
    "t": "Time(n % 24, n % 60, n % 59, nanosecond=n)",
    "td": "TimeDelta(nanoseconds=n * 1_234_567_891_011)",
    "dd": "DateDelta(months=n % 119_000, days=n)",
    "dtd": "DateTimeDelta(months=n % 119_000, days=n, nanoseconds=n * 1_000_000_007)",
    "ym": "YearMonth(1 + n % 9998, 1 + n // 9998 % 12)",
}
CLS = {"i": "Instant", "o": "OffsetDateTime", "z": "ZonedDateTime", "s": "SystemDateTime", "l": "LocalDateTime", "d": "Date", "t": "Time", "td": "TimeDelta", "dd": "DateDelta", "dtd": "DateTimeDelta", "ym": "YearMonth"}


def distinct():
    out = []
    for k, mk in MAKE.items():
        c = CLS[k]
        out += [mk, f"{c}.parse_common_iso(str({mk}))", f"(x := {mk}, hash(x), repr(x), x == x, copy.copy(x))", f"pickle.loads(pickle.dumps({mk}))", f"{c}.parse_common_iso('x%d' % n)"]
    for k in "ioszl":
        out.append(f"{CLS[k]}.from_py_datetime({MAKE[k]}.py_datetime())")
    for k in "iosz":
        m = MAKE[k]
        out += [f"({m} - Instant.from_utc(2020, 1, 1), {m} < Instant.from_utc(2020, 1, 1))", f"{m}.to_tz('America/New_York')", f"{m}.to_system_tz()", f"{m}.to_fixed_offset({'' if k != 'i' else 'n % 20'})",
                f"({m}.timestamp(), {CLS[k]}.from_timestamp_nanos(n" + {"i": "", "o": ", offset=1, ignore_dst=True", "s": "", "z": ", tz='UTC'"}[k] + "))"]
    for k in "zsl":
        m = MAKE[k]
        out += [f"{m}.add(months=n % 100, hours=n{', ignore_dst=True' if k == 'l' else ''})", f"{m}.replace(hour=n % 24, minute=n % 60)", f"{m}.replace_date(Date(1 + n % 9990, 1, 1 + n % 28))", f"{m}.round('minute')"]
    out += ["Instant.parse_rfc2822(%s.format_rfc2822())" % MAKE["i"], "Instant.parse_rfc3339(%s.format_rfc3339())" % MAKE["i"], "OffsetDateTime.strptime('2020-01-01 %06d+0100' % (n % 999_999), '%Y-%m-%d %f%z')",
            "ZonedDateTime(2020, 1, 1, tz='Foo/Bar%d' % n)", "ZonedDateTime.parse_common_iso('2020-01-01T00:00:00+01:00[Foo/Bar%d]' % n)", "Date(2020, 1, 1).add(days=n)", "Date(2020, 1, 1).days_until(%s)" % MAKE["d"],
            "Date(2020, 1, 1) - %s" % MAKE["d"], "TimeDelta(seconds=n + 0.5) * 1.5", "%s.round('second', increment=1 + n %% 60)" % MAKE["td"], "%s.in_hrs_mins_secs_nanos()" % MAKE["td"], "TimeDelta.from_py_timedelta(%s.py_timedelta())" % MAKE["td"],
            "Date(2020, 2, 30 + n)", "Time(24 + n)", "Instant.from_timestamp(10**15 + n)", "LocalDateTime(2020, 1, 1).replace(**{'foo%d' % n: 1})", "Date(2020, 1, 1).round('foo%d' % n)", "ZonedDateTime(2020, 1, 1, tz='UTC').round('foo%d' % n)",
            "ZonedDateTime(2023, 3, 26, 2, 30, second=n % 60, nanosecond=n, tz='Europe/Paris', disambiguate='raise')", "ZonedDateTime(2023, 10, 29, 2, 30, nanosecond=n, tz='Europe/Paris', disambiguate='raise')",
            "LocalDateTime(2023, 3, 26, 2, 30, nanosecond=n).assume_tz('Europe/Paris')"]
    # ever new input that is refused, and ever new options
    for k in "iosz":
        m = MAKE[k]
        out += [f"{m}.to_tz('Foo/Bar%d' % n)", f"{m}.to_fixed_offset(24 + n)"]
        tz = {"i": "", "o": ", offset=n % 20, ignore_dst=True", "s": "", "z": ", tz=ZONES[n % 7]"}[k]
        out += [f"{CLS[k]}.from_timestamp(({g}){tz})" for g in ("n - 10**6", "10**12 + n")] + [f"{CLS[k]}.from_timestamp_{u}({g}{tz})" for u in ("millis", "nanos") for g in ("-n * 86_399_999", "n * 10**25 + n")]
        out += [f"{m}.difference({MAKE['o']})", f"{m}.exact_eq({m})", f"{m} - {MAKE['z']}", f"{m}.instant()" if k != "i" else f"{m}.to_fixed_offset()"]
    for k in "ioszld":
        m, i = MAKE[k], ", ignore_dst=True" * (k in "ol")
        out += [f"{m}.add({'days' if k == 'd' else 'hours'}=n - 30_000{i})", f"{m}.subtract({'days' if k == 'd' else 'hours'}=10**9 + n{i})", f"{m}.add(**{{'foo%d' % n: 1}})", f"{m}.format_common_iso()", f"({m} == n, {m} != 'x%d' % n)"]
        if k not in "i":
            out += [f"{m}.replace(day=n % 40{i if k == 'o' else ''})", f"{m}.replace(year=10_000 + n{i if k == 'o' else ''})"]
    for c, f in (("Instant", "parse_rfc2822"), ("OffsetDateTime", "parse_rfc2822"), ("Instant", "parse_rfc3339"), ("OffsetDateTime", "parse_rfc3339")):
        out.append(f"{c}.{f}('Mon, %d' % n)")
    out += ["OffsetDateTime.strptime('x%d' % n, '%Y-%m-%d %z')", "OffsetDateTime.strptime('2020', 'x%d' % n)", "LocalDateTime.strptime('2020-01-01 %06d' % (n % 999_999), '%Y-%m-%d %f')", "LocalDateTime.strptime('x%d' % n, '%Y')",
            "LocalDateTime(2020, 1, 1, nanosecond=n).assume_tz('Foo/Bar%d' % n)", "LocalDateTime(2020, 1, 1, nanosecond=n).assume_tz(ZONES[n % 7], disambiguate='foo%d' % n)", "LocalDateTime(2020, 1, 1, nanosecond=n).assume_fixed_offset(n)",
            "LocalDateTime(1 + n % 9998, 3, 26, 2, 30).assume_system_tz()", "ZonedDateTime.now('Foo/Bar%d' % n)", "Instant.now().to_tz('Foo/Bar%d' % n)", "(Instant.now(), ZonedDateTime.now(ZONES[n % 7]), SystemDateTime.now(), OffsetDateTime.now(1, ignore_dst=True), Date.today_in_system_tz())",
            "ZonedDateTime(1 + n % 9998, 1 + n % 12, 1 + n % 28, n % 24, tz=ZONES[n % 7])", "ZonedDateTime(1 + n % 9998, 1 + n % 12, 1 + n % 28, n % 24, tz=ZONES[n % 7]).day_length()", "SystemDateTime(1 + n % 9998, 1 + n % 12, 1 + n % 28, n % 24).start_of_day()",
            "Time(n % 24).round('second', mode='foo%d' % n)", "TimeDelta(seconds=n).round('hour', increment=-n)", "DateDelta(months=n, days=-n)", "DateDelta(months=10**7 + n)", "TimeDelta(hours=10**9 + n)", "DateTimeDelta(days=n, hours=-n)",
            "TimeDelta(nanoseconds=n) / (n - 40_000)", "TimeDelta(nanoseconds=n) * (10**20 + n)", "TimeDelta(nanoseconds=n) // TimeDelta(nanoseconds=n - 40_000)", "TimeDelta(nanoseconds=n) % TimeDelta(nanoseconds=n + 1)", "%s.in_years_months_days()" % MAKE["dd"], "%s.in_months_days_secs_nanos()" % MAKE["dtd"],
            "%s.format_common_iso()" % MAKE["dtd"], "%s * (n %% 50)" % MAKE["dd"], "%s + %s" % (MAKE["d"], "DateDelta(days=n % 900)"), "%s.on(%s)" % (MAKE["t"], MAKE["d"]), "MonthDay(1 + n % 12, 1 + n % 31)", "MonthDay(1 + n % 12, 1 + n % 28).in_year(1 + n % 9998)", "%s.on_day(1 + n %% 31)" % MAKE["ym"],
            "MonthDay.parse_common_iso('--%02d-%02d' % (n % 14, n % 33))", "MonthDay.parse_common_iso('x%d' % n)", "pickle.loads(pickle.dumps(MonthDay(1 + n % 12, 1 + n % 28)))", "Weekday(1 + n % 9)",
            "{Date(1 + n % 9998, 1, 1): n, n: Date(2, 1, 1)}[Date(1 + n % 9998, 1, 1)]"]
    # one try per kind of operand
    out += [f"{MAKE[a]} {o} {MAKE[b]}" for o in ("+", "<") for a, b in (("i", "td"), ("z", "dtd"), ("s", "dd"), ("d", "dd"), ("td", "dd"), ("dtd", "td"), ("i", "o"), ("z", "s"), ("l", "l"), ("d", "t"))]
    return out


DISTINCT = distinct()


def run_distinct(ctx, i):
    import copy
    import datetime
    import pickle
    import zoneinfo

    ns = {**vars(whenever), "copy": copy, "pickle": pickle, "datetime": datetime, "zoneinfo": zoneinfo, "ZONES": ZONES}
    n = N[ctx.tier]
    for src in DISTINCT[i:i + 4]:
        f = eval(f"lambda n: {src}", ns)
        ctx.states += 3 * n
        ctx.transitions += 3 * n
        ctx.traces += 1
        got = leaks.growth(f, n)
        if got != "bounded":
            ctx.fail(f"leaks.growth(lambda n: {src}, {n})", "'bounded'", repr(got), setup=SETUP + ZSETUP * ("ZONES" in src), key=src)
    ctx.sample(f"{src} for {3 * n} different n")


# ---- values made from values, over and over --------------------------------
START = {
    "Instant": "Instant.from_utc(2020, 1, 1, 12, nanosecond=5)", "OffsetDateTime": "OffsetDateTime(2020, 1, 1, 12, nanosecond=5, offset=2)", "ZonedDateTime": "ZonedDateTime(2020, 1, 1, 12, nanosecond=5, tz='Europe/Paris')",
    "SystemDateTime": "SystemDateTime(2020, 1, 1, 12, nanosecond=5)", "LocalDateTime": "LocalDateTime(2020, 1, 1, 12, nanosecond=5)", "Date": "Date(2020, 1, 15)", "Time": "Time(12, 30, nanosecond=5)", "YearMonth": "YearMonth(2020, 2)", "MonthDay": "MonthDay(2, 29)",
    "TimeDelta": "TimeDelta(hours=5, nanoseconds=3)", "DateDelta": "DateDelta(months=5, days=3)", "DateTimeDelta": "DateTimeDelta(months=5, days=3, hours=4)",
}


def chains():
    """type, expression of a value x and a number n that gives a value of the same type"""
    out = []
    for c in START:
        out += [(c, s) for s in ("copy.copy(x)", "copy.deepcopy(x)", "pickle.loads(pickle.dumps(x))", f"{c}.parse_common_iso(x.format_common_iso())", f"{c}.parse_common_iso(str(x) + ' ') if 0 else [x, x][n % 2]", f"min(x, x)" if c[-5:] != "Delta" or c == "TimeDelta" else "x")]
    for c, kw in (("Instant", ""), ("OffsetDateTime", ", ignore_dst=True"), ("ZonedDateTime", ""), ("SystemDateTime", ""), ("LocalDateTime", ", ignore_dst=True")):
        out += [(c, s) for s in (f"x.add(seconds=n % 3 - 1{kw})", f"x.subtract(nanoseconds=n % 3 - 1{kw})", f"x.add(TimeDelta(seconds=n % 3 - 1){kw})" if kw or c != "Instant" else "x", f"x.round('second'{kw if c[0] == 'O' else ''})", f"{c}.from_py_datetime(x.py_datetime())")]
        if c not in ("OffsetDateTime", "LocalDateTime"):
            out += [(c, "x + TimeDelta(seconds=n % 3 - 1)"), (c, "x - TimeDelta(seconds=n % 3 - 1)")]
        if c != "Instant":
            r = kw if c[0] == "O" else ""
            out += [(c, s) for s in (f"x.add(months=n % 3 - 1{kw})", f"x.replace(day=1 + n % 28{r})", f"x.replace_date(x.date(){r})", f"x.replace_time(x.time(){r})", f"x.round('day'{r})", f"x.replace_time(Time(n % 24){r})")]
        if c != "LocalDateTime":
            out += [(c, s) for s in ("x.to_tz('America/New_York').to_system_tz().to_fixed_offset().instant()" + {"Instant": "", "OffsetDateTime": ".to_fixed_offset(2)", "ZonedDateTime": ".to_tz('Europe/Paris')", "SystemDateTime": ".to_system_tz()"}[c],
                                     f"{c}.from_timestamp_nanos(x.timestamp_nanos()" + {"Instant": "", "OffsetDateTime": ", offset=2, ignore_dst=True", "ZonedDateTime": ", tz=x.tz", "SystemDateTime": ""}[c] + ")")]
    out += [("OffsetDateTime", "x.local().assume_fixed_offset(x.offset)"), ("OffsetDateTime", "OffsetDateTime.parse_rfc2822(x.format_rfc2822())"), ("OffsetDateTime", "OffsetDateTime.parse_rfc3339(x.format_rfc3339())"), ("OffsetDateTime", "x.to_fixed_offset(n % 20)"),
            ("ZonedDateTime", "x.local().assume_tz(x.tz)"), ("ZonedDateTime", "x.to_tz(ZONES[n % 7])"), ("ZonedDateTime", "x.start_of_day()"), ("ZonedDateTime", "x.replace(tz=ZONES[n % 7])"), ("SystemDateTime", "x.local().assume_system_tz()"), ("SystemDateTime", "x.start_of_day()"),
            ("Instant", "Instant.parse_rfc2822(x.format_rfc2822())"), ("Instant", "Instant.parse_rfc3339(x.format_rfc3339())"), ("LocalDateTime", "x.date().at(x.time())"), ("LocalDateTime", "x.time().on(x.date())"), ("LocalDateTime", "x.assume_utc().to_tz('UTC').local()"),
            ("Date", "x.add(days=n % 3 - 1)"), ("Date", "x.add(months=n % 3 - 1)"), ("Date", "x - DateDelta(days=n % 3 - 1)"), ("Date", "x + (x - Date(2020, 1, 15))" ), ("Date", "x.replace(day=1 + n % 28)"), ("Date", "x.year_month().on_day(x.day)"), ("Date", "x.month_day().in_year(x.year)"),
            ("Date", "Date.from_py_date(x.py_date())"), ("Date", "x.at(Time(1)).date()"), ("Time", "x.replace(minute=n % 60)"), ("Time", "x.round('microsecond')"), ("Time", "Time.from_py_time(x.py_time())"), ("Time", "x.on(Date(2020, 1, 1)).time()"), ("YearMonth", "x.replace(month=1 + n % 12)"), ("YearMonth", "x.on_day(1).year_month()"),
            ("MonthDay", "x.replace(month=1 + n % 12, day=3)"), ("MonthDay", "x.in_year(2024).month_day()"), ("TimeDelta", "-x"), ("TimeDelta", "abs(x)"), ("TimeDelta", "+x"), ("TimeDelta", "x + TimeDelta(seconds=n % 3 - 1)"), ("TimeDelta", "x - TimeDelta(seconds=n % 3 - 1)"), ("TimeDelta", "x * 1"),
            ("TimeDelta", "x / 1.0"), ("TimeDelta", "x % TimeDelta(hours=9)"), ("TimeDelta", "x.round('second')"), ("TimeDelta", "TimeDelta.from_py_timedelta(x.py_timedelta())"), ("TimeDelta", "(DateDelta(days=1) + x).time_part()"), ("DateDelta", "-x"), ("DateDelta", "abs(x)"), ("DateDelta", "+x"),
            ("DateDelta", "x * 1"), ("DateDelta", "x + DateDelta(months=0)"), ("DateDelta", "x - DateDelta(days=0)"), ("DateDelta", "(x + TimeDelta(hours=1)).date_part()"), ("DateTimeDelta", "-x"), ("DateTimeDelta", "abs(x)"), ("DateTimeDelta", "x * 1"), ("DateTimeDelta", "x + TimeDelta(0)" if 0 else "x + TimeDelta.ZERO"),
            ("DateTimeDelta", "x - DateDelta.ZERO"), ("DateTimeDelta", "x.date_part() + x.time_part()")]
    return list(dict.fromkeys(out))


CHAINS = chains()


def run_chains(ctx, i):
    import copy
    import pickle

    ns = {**vars(whenever), "copy": copy, "pickle": pickle, "ZONES": ZONES}
    n = N[ctx.tier]
    for c, src in CHAINS[i:i + 8]:
        f = leaks.Chain(eval(START[c], ns), eval(f"lambda x, n: {src}", ns))
        ctx.states += 3 * n
        ctx.transitions += 3 * n
        ctx.traces += 1
        if f.works() != "it does":  # (for other properties)
            ctx.outcomes["no chain"] += 1
        elif (got := leaks.growth(f, n)) != "bounded":
            ctx.fail(f"leaks.growth(leaks.Chain({START[c]}, lambda x, n: {src}), {n})", "'bounded'", repr(got), setup=SETUP + f"ZONES = {ZONES}\n", key=f"x = {src}")
    ctx.sample(f"x = {src}, {3 * n} times")


def run(ctx, shard):
    globals()["run_" + shard[0]](ctx, *shard[1:])
