"""strptime() of the two types that offer it"""
from __future__ import annotations

import datetime
import itertools

from whenever import LocalDateTime, OffsetDateTime

from .. import cal, pool, vals
from ..cal import DAY_NS, NS
from ..vals import VALUE, Op, chk, eL, eO

ID = "C33"
TITLE = "strptime() reads exactly the date, time and offset the format describes"
MONTHS = "January February March April May June July August September October November December".split()
WEEKDAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()


def bounds(tier):
    return {
        "formats": "20 date parts x 13 time parts x 5 separators x offset directive or none, in either order",
        "moments": "boundary local times: range ends, leap days, year and week boundaries, fractions",
        "offsets": "36 (thorough: every 7th of all 172799 whole-second) offsets in every spelling %z reads, fractions of a second included",
        "texts that don't match": "every single-character deletion, duplication and replacement of rendered texts",
        "oracle": "field model, and for edited texts from_py_datetime(datetime.strptime(...)) reconstructed from the parsed fields",
    }


OS, LS = Op("OffsetDateTime.strptime(s, f)", "s f"), Op("LocalDateTime.strptime(s, f)", "s f")


# ---- rendering: directive -> text, and which part of the value survives ----
def iso_week(n):
    wd = cal.weekday(n)  # Monday = 1
    thursday = n - wd + 4
    if not 0 <= thursday < cal.NDAYS:
        return None
    y = cal.civil(thursday)[0]
    return y, (thursday - cal.days(y, 1, 1)) // 7 + 1, wd


def week_of(n, first):
    "%U (first=7) and %W (first=1): days before the first such weekday are week 0"
    y = cal.civil(n)[0]
    j1 = cal.days(y, 1, 1)
    lead = (first - cal.weekday(j1)) % 7  # days before the first full week
    return (n - j1 - lead) // 7 + 1 if n - j1 >= lead else 0


def date_text(f, n):
    """the text of day n in a format, and the day it denotes (None: not expressible)"""
    y, m, d = cal.civil(n)
    wd = cal.weekday(n)
    yd = n - cal.days(y, 1, 1) + 1
    t = f
    if "%G" in f:
        w = iso_week(n)
        if w is None:
            return None
        t = t.replace("%G", f"{w[0]:04d}").replace("%V", f"{w[1]:02d}").replace("%u", str(wd)).replace("%A", WEEKDAYS[wd - 1])
        return t, n
    for k, v in (("%Y", f"{y:04d}"), ("%y", f"{y % 100:02d}"), ("%m", f"{m:02d}"), ("%d", f"{d:02d}"), ("%j", f"{yd:03d}"), ("%b", MONTHS[m - 1][:3]), ("%h", MONTHS[m - 1][:3]), ("%B", MONTHS[m - 1]),
                 ("%a", WEEKDAYS[wd - 1][:3]), ("%A", WEEKDAYS[wd - 1]), ("%w", str(wd % 7)), ("%u", str(wd)), ("%U", f"{week_of(n, 7):02d}"), ("%W", f"{week_of(n, 1):02d}")):
        t = t.replace(k, v)
    t = t.replace("%%", "%")
    if "%y" in f and not 1969 <= y <= 2068:
        return None
    ydef = y if "%Y" in f or "%y" in f else 1900
    if "%j" in f or "%U" in f or "%W" in f:
        return t, n
    if "%m" in f or "%b" in f or "%B" in f or "%h" in f:
        md = (m, d if "%d" in f else 1)
    else:
        md = (1, d if "%d" in f else 1)
    if md[1] > cal.dim(ydef, md[0]):
        return t, None
    return t, cal.days(ydef, *md)


DATE_FMTS = ["%Y-%m-%d", "%d/%m/%Y", "%Y%m%d", "%Y-%j", "%y%m%d", "%b %d %Y", "%B %d, %Y", "%A %d %B %Y", "%a, %d %b %Y", "%G-W%V-%u", "%Y %U %w", "%Y %W %w", "%Y W%W %A", "%m-%d", "%Y-%m", "%Y", "", "100%% %Y.%m.%d", "%j/%Y", "%d.%m.%y"]


def time_text(f, tod):
    s, ns = divmod(tod, NS)
    h, mi, s = s // 3600, s // 60 % 60, s % 60
    us = ns // 1000
    t = f
    for k, v in (("%H", f"{h:02d}"), ("%I", f"{(h - 1) % 12 + 1:02d}"), ("%p", "AM" if h < 12 else "PM"), ("%M", f"{mi:02d}"), ("%S", f"{s:02d}")):
        t = t.replace(k, v)
    val = 0
    if "%H" in f:
        val += h * 3600
    elif "%I" in f:
        val += h * 3600 if "%p" in f else h % 12 * 3600
    if "%M" in f:
        val += mi * 60
    if "%S" in f:
        val += s
    if "%f" not in f:
        return [(t, val * NS)]
    full = f"{us:06d}"
    texts = {full, full.rstrip("0") or "0"}
    return [(t.replace("%f", x), val * NS + us * 1000) for x in sorted(texts)]


TIME_FMTS = ["%H:%M:%S.%f", "%H:%M:%S", "%H:%M", "%H", "", "%I:%M:%S %p", "%I%p", "%I:%M", "%H%M%S.%f", "%M:%S", "%p %I:%M:%S.%f", "%S.%f", "%f"]
TODS = [0, 1000, 999_999_000, NS, 59 * NS, 60 * NS, 3599 * NS + 120_000_000, 3600 * NS, 12 * 3600 * NS, 12 * 3600 * NS + 60 * NS, 13 * 3600 * NS + 7 * NS + 70_000, DAY_NS - 1000, DAY_NS - NS, DAY_NS // 2 - 1000]


def offset_texts(o):
    a = abs(o)
    h, m, s = a // 3600, a // 60 % 60, a % 60
    g = "-" if o < 0 else "+"
    if s:
        base = [f"{g}{h:02d}:{m:02d}:{s:02d}", f"{g}{h:02d}{m:02d}{s:02d}"]
    else:
        base = [f"{g}{h:02d}:{m:02d}", f"{g}{h:02d}{m:02d}", f"{g}{h:02d}:{m:02d}:00"]
    if o == 0:
        base += ["Z", "-00:00", "-0000"]
    with_frac = [(f"{g}{h:02d}:{m:02d}:{s:02d}.{fr}", int(fr.ljust(6, "0"))) for fr in ("0", "000000", "5", "000001", "25", "999999")]
    return [(t, 0) for t in base] + with_frac


DAYS = sorted({0, 1, cal.NDAYS - 1, cal.NDAYS - 2, *(cal.days(y, m, d) for y in (1, 4, 1900, 1968, 1969, 2000, 2015, 2016, 2020, 2021, 2023, 2068, 2069, 9999)
                                                    for m, d in ((1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 7), (2, 28), (3, 1), (6, 30), (12, 28), (12, 29), (12, 30), (12, 31))), *(cal.days(y, 2, 29) for y in (4, 1904, 2000, 2020, 2068))})
SEPS = ["T", " ", ", ", "_", " at "]


def expect(local, off, frac):
    if off is None or frac:
        return VALUE
    u = local - off * NS
    return eO(u, off) if cal.in_range(u) else VALUE


def shards(tier):
    return [("formats", i) for i in range(len(DATE_FMTS))] + [("offsets", i) for i in range(8)] + [("edits", i) for i in range(8)] + [("days", i) for i in range(8)] + [("bad",)]


def parts(ctx, df, n, tf, tod):
    dt = date_text(df, n)
    if dt is None:
        return
    for tt, t in time_text(tf, tod):
        yield dt[0], tt, (None if dt[1] is None else dt[1] * DAY_NS + t)


def run_formats(ctx, i):
    df = DATE_FMTS[i]
    for tf, sep in zip(TIME_FMTS, SEPS * 3):
        texts = []
        for n in DAYS:
            for tod in TODS if ctx.thorough or n in DAYS[::9] else (0, TODS[10]):
                texts += parts(ctx, df, n, tf, tod)
        ctx.states += len(texts)
        offs = [(o, *ot) for o in (0, 7200, -12_615) for ot in offset_texts(o)[:2]]
        if not ctx.thorough:
            offs = offs[::2]
        # format by format: the standard library only caches a few
        for fmt, flip in ((df + sep + tf, False), (tf + sep + df, True)):
            both = [((t + sep + d if flip else d + sep + t), local) for d, t, local in texts]
            for text, local in both:
                chk(ctx, LS, VALUE if local is None else eL(local), text, fmt)
                chk(ctx, OS, VALUE, text, fmt)
            for f, join in ((fmt + " %z", "{0} {1}"), ("%z " + fmt, "{1} {0}"), (fmt + "%z", "{0}{1}")):
                for text, local in both[:: 1 if ctx.thorough else 3]:
                    for o, ot, frac in offs:
                        s = join.format(text, ot)
                        chk(ctx, OS, VALUE if local is None else expect(local, o, frac), s, f)
                    chk(ctx, LS, VALUE, s, f)
    ctx.sample(f"formats with {df!r} for the date")


def run_offsets(ctx, i):
    f = "%Y-%m-%d %H:%M:%S.%f%z"
    for o in sorted({*pool.OFFSETS, *(-o for o in pool.OFFSETS), *range(-86399, 86400, 7 if ctx.thorough else 1801), *range(-43200, 50400, 900), -1, 1, -59, 59, -60, 60})[i::8]:
        for local in (cal.local_ns(2023, 10, 29, 2, 30, 15, 120_000), 0, o * NS if o >= 0 else 0, o * NS - NS if o > 0 else NS, cal.LOCAL_MAX - 999, cal.LOCAL_MAX - 999 + min(o, 0) * NS, cal.LOCAL_MAX - 999 + min(o, 0) * NS + NS):
            if not cal.in_range(local):
                continue
            y, mo, d, h, mi, s, ns = cal.fields(local)
            text = f"{y:04d}-{mo:02d}-{d:02d} {h:02d}:{mi:02d}:{s:02d}.{ns // 1000:06d}"
            ctx.states += 1
            for ot, frac in offset_texts(o):
                chk(ctx, OS, expect(local, o, frac), text + ot, f)
                chk(ctx, LS, VALUE, text + ot, f)
    if i == 0:
        for ot in ("+24:00", "-24:00", "+99:59", "+23:60", "+1:00", "+01", "+01:0", "z", "+0100:30", "+01:0030", "01:00", "+-1:00", "", " +01:00 ", "+01:00:60"):
            chk(ctx, OS, VALUE, "2020-08-15 23:12:09.000000" + ot, f)
    ctx.sample(f"offsets {ot} in every spelling")


def via_py(s, f, cls):
    """what the documentation says strptime is an alias of, evaluated from the fields"""
    try:
        p = datetime.datetime.strptime(s, f)
    except ValueError:
        return VALUE
    local = cal.local_ns(p.year, p.month, p.day, p.hour, p.minute, p.second, p.microsecond * 1000)
    off = p.utcoffset()
    if cls is LocalDateTime:
        return VALUE if p.tzinfo is not None else eL(local)
    if off is None:
        return VALUE
    us = off // datetime.timedelta(microseconds=1)
    return expect(local, us // 10**6, us % 10**6)


def edits(t):
    for k in range(len(t)):
        yield t[:k] + t[k + 1:]
        yield t[:k] + t[k] + t[k:]
        for c in "09+-:. Z٣":
            yield t[:k] + c + t[k + 1:]


def run_edits(ctx, i):
    for df, tf in [(d, t) for d in DATE_FMTS for t in ("%H:%M:%S.%f", "%I:%M %p", "")][i::8]:
        for n, tod, o in ((cal.days(2020, 2, 29), 13 * 3600 * NS + 7 * NS + 70_000, 19_800), (cal.days(9999, 12, 31), DAY_NS - 1000, -3600), (0, 0, 3600)):
            for d, t, local in parts(ctx, df, n, tf, tod):
                ot = offset_texts(o)[0][0]
                base = f"{d} {t}"
                ctx.states += 1
                for text in sorted({*edits(base)}):
                    chk(ctx, LS, via_py(text, f"{df} {tf}", LocalDateTime), text, f"{df} {tf}")
                for text in sorted({*edits(base + ot), base.upper() + ot, base.lower() + ot, base + "  " + ot}):
                    chk(ctx, OS, via_py(text, f"{df} {tf}%z", OffsetDateTime), text, f"{df} {tf}%z")
    ctx.sample(f"edits of {base!r}")


def run_days(ctx, i):
    for df in ("%Y-%m-%d", "%G-W%V-%u", "%Y %U %w", "%Y %W %w", "%j %Y"):
        for n in range(i, cal.NDAYS, 8 * (1 if ctx.thorough else 173)):
            dt = date_text(df, n)
            if dt is not None:
                chk(ctx, LS, eL(dt[1] * DAY_NS), dt[0], df)
    ctx.sample(f"day {n} in five notations")


def run_bad(ctx):
    for f in ("%", "%Q", "%Y-%", "%s", "%:Z", "%E", "%Y-%m-%d %", "%-d", "%10Y"):
        for s in ("2020-08-15", "", f, "1597449600"):
            chk(ctx, LS, VALUE, s, f)
            chk(ctx, OS, VALUE, s, f)
            chk(ctx, OS, VALUE, s + "+01:00", f + "%z")
    for s, f in (("2020-08-15 60", "%Y-%m-%d %S"), ("2020-08-15 61", "%Y-%m-%d %S"), ("0000-01-01", "%Y-%m-%d"), ("2020-13-01", "%Y-%m-%d"), ("2021-02-29", "%Y-%m-%d"), ("2020-04-31", "%Y-%m-%d"), ("2021-366", "%Y-%j"),
                 ("10000-01-01", "%Y-%m-%d"), ("2020-08-15\n", "%Y-%m-%d"), ("2020-08-15 24", "%Y-%m-%d %H")):
        chk(ctx, LS, via_py(s, f, LocalDateTime), s, f)
        chk(ctx, OS, via_py(s + "+00:00", f + "%z", OffsetDateTime), s + "+00:00", f + "%z")
    ctx.states += 1
    # names of zones carry no offset
    for name in ("UTC", "GMT"):
        chk(ctx, OS, VALUE, f"2020-08-15 {name}", "%Y-%m-%d %Z")
        chk(ctx, OS, eO(cal.local_ns(2020, 8, 15) + 3600 * NS, -3600), f"2020-08-15 {name} -0100", "%Y-%m-%d %Z %z")
        chk(ctx, LS, VALUE, f"2020-08-15 {name} -0100", "%Y-%m-%d %Z %z")
    ctx.sample("unknown directives, impossible dates, zone names")


def run(ctx, shard):
    vals.EXTRA_SETUP = ""
    globals()["run_" + shard[0]](ctx, *shard[1:])
