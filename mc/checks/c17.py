from __future__ import annotations

import itertools

from whenever import Instant, OffsetDateTime

from .. import cal, pool, vals
from ..cal import NS
from ..vals import Err, Op, VALUE, chk, eI, eO, mkI, mkO, report, view

ID = "C17"
TITLE = "RFC 2822 text keeps the moment to the second and its offset's meaning"

WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MO = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
ZERO = ["GMT", "UT", "UTC", "+0000", "gmt", "Utc"]
NAMED = {"EST": -5, "EDT": -4, "CST": -6, "CDT": -5, "MST": -7, "MDT": -6, "PST": -8, "PDT": -7, "edt": -4}
NOZONE = ["", "XYZ", "Z1"]
LO = cal.local_ns(1000, 1, 1)
ALPHABET = list("019,:-+. AaGg") + ["\n", "\0", "٣", "−"]


def bounds(tier):
    return {
        "format": f"every day of {'the years 1000..9999' if tier == 'thorough' else '1899..2100 and one day in 97 of the years 1000..9999'}; every whole-minute offset; every hour, minute and second",
        "grammar": "weekday present/absent/lowercase x 1 or 2 digit day x 12 months in 3 cases x 3 time forms x every zone form (zero, numeric, named, -0000, missing) x 4 spacings",
        "edits": f"every string one edit away from 6 texts over {len(ALPHABET)} characters: a ValueError or a real value, never another error",
    }


def shards(tier):
    return [("days", i) for i in range(16)] + [("offsets", i) for i in range(8)] + [("times", i) for i in range(8)] + [("grammar", i) for i in range(12)] + [("edits", i) for i in range(8)] + [("misc",)]


FMT = Op("x.format_rfc2822()", "x")
RT = {t: Op(f"{t.__name__}.parse_rfc2822(x.format_rfc2822())", "x") for t in (Instant, OffsetDateTime)}
PI = Op("Instant.parse_rfc2822(s)", "s")
PO = Op("OffsetDateTime.parse_rfc2822(s)", "s")


def text(local, zone):
    y, m, d, h, mi, s, _ = cal.fields(local)
    return f"{WD[(cal.weekday(cal.days(y, m, d)) - 1) % 7]}, {d:02d} {MO[m - 1]} {y:04d} {h:02d}:{mi:02d}:{s:02d} {zone}"


def off_text(o):
    a = abs(o) // 60
    return f"{'-' if o < 0 else '+'}{a // 60:02d}{a % 60:02d}"


def one(ctx, u, off, sub=0):
    """u: whole-second UTC; formatted with `sub` extra nanoseconds, which the format drops"""
    if off is None:
        x = mkI(u + sub)
        ctx.states += 1
        chk(ctx, FMT, text(u, "GMT"), x)
        chk(ctx, RT[Instant], eI(u), x)
        return
    loc = u + off * NS
    if loc < LO or not cal.in_range(loc):
        return
    x = mkO(u + sub, off)
    ctx.states += 1
    t = text(loc, off_text(off))
    chk(ctx, FMT, t, x)
    chk(ctx, RT[OffsetDateTime], eO(u, off), x)
    chk(ctx, PI, eI(u) if off == 0 else VALUE, t)


def run_days(ctx, i):
    n0, n1 = LO // cal.DAY_NS, cal.NDAYS
    a, b = cal.days(1899, 1, 1), cal.days(2101, 1, 1)
    days = range(n0 + i, n1, 16) if ctx.thorough else sorted({*range(a + i, b, 16), *range(n0 + i * 7, n1, 97)})
    for n in days:
        u = n * cal.DAY_NS + (n * 3671 % 86400) * NS
        one(ctx, u, None)
        one(ctx, u, 7200)
    ctx.sample(text(u, "GMT"))


def run_offsets(ctx, i):
    for o in range(-86340 + 60 * i, 86400, 480):
        for u in [cal.local_ns(2020, 8, 15, 23, 12, 9), cal.local_ns(2024, 2, 29), cal.local_ns(1999, 12, 31, 23, 59, 59)]:
            one(ctx, u, o, sub=999_999_999)
            one(ctx, u - o * NS, o)
    for u in pool.BOUNDARY_UTC + pool.EXTREME_UTC:
        u -= u % NS
        if u >= LO + cal.DAY_NS:
            for o in (None, *(o for o in pool.OFFSETS if o % 60 == 0)):
                one(ctx, u, o, sub=1)
    ctx.sample(text(u, off_text(o)))


def run_times(ctx, i):
    for t in range(i, 86400, 8 if ctx.thorough else 8 * 11):
        one(ctx, cal.local_ns(2021, 7, 4) + t * NS, None, sub=t)
        one(ctx, cal.local_ns(2021, 7, 4) + t * NS, -(9 * 3600 + 1800), sub=t)
    ctx.sample("every second of a day")


def zones():
    for z in ZERO:
        yield z, 0
    for z, h in NAMED.items():
        yield z, h * 3600
    for o in (60, -60, 3600, -3600, 19800, -12600, 14 * 3600, -12 * 3600, 86340, -86340, 30 * 60, -30 * 60):
        yield off_text(o), o
    yield "-0000", None
    for z in NOZONE:
        yield z, "none"


def run_grammar(ctx, i):
    m = i + 1
    for d, (y, ys) in itertools.product((1, 9, 15, 28), ((2020, "2020"), (1999, "1999"), (2069, "2069"), (1969, "1969"))):
        wd = WD[(cal.weekday(cal.days(y, m, d)) - 1) % 7]
        for day, mon, (tt, tod), (z, o) in itertools.product(
            (f"{d:02d}", str(d)), (MO[m - 1], MO[m - 1].lower(), MO[m - 1].upper()),
            (("23:12:09", 83529), ("23:12", 83520), ("00:00:00", 0)), zones()):
            local = cal.local_ns(y, m, d) + tod * NS
            for pre in ("", f"{wd}, ", f"{wd.lower()}, ", f"{wd},"):
                for sp in (" ", "  ", "\t", "\r\n ") if pre == f"{wd}, " or ctx.thorough else (" ",):
                    s = f"{pre}{day}{sp}{mon}{sp}{ys}{sp}{tt}{sp}{z}"
                    ctx.states += 1
                    if o == "none":
                        chk(ctx, PI, VALUE, s)
                        chk(ctx, PO, VALUE, s)
                    elif o is None:
                        chk(ctx, PI, eI(local), s)
                        chk(ctx, PO, VALUE, s)
                    else:
                        chk(ctx, PI, eI(local) if o == 0 else VALUE, s)
                        chk(ctx, PO, eO(local - o * NS, o), s)
    ctx.sample(repr(s))


SEEDS = ["Sat, 15 Aug 2020 23:12:09 GMT", "Sat, 15 Aug 2020 23:12:09 +0200", "1 Jan 0001 00:30 +0100", "31 Dec 9999 23:30:00 -0100", "Sat, 15 Aug 2020 23:12:09 -0000", "15-Aug-20 23:12:09 EST"]
FAIL = (ValueError, OverflowError)


def lenient(ctx, s):
    """accepted or refused, but soundly: the value exists and is self-consistent"""
    ctx.states += 1
    res = {}
    for op, t in ((PI, Instant), (PO, OffsetDateTime)):
        ctx.transitions += 1
        ctx.traces += 1
        try:
            x = op(s)
        except FAIL:
            ctx.outcomes["refused"] += 1
            continue
        except Exception as e:  # noqa: BLE001
            report(ctx, op, "ValueError|OverflowError", type(e).__name__, (s,), repr(e))
            continue
        ctx.outcomes["accepted"] += 1
        if type(x) is not t:
            report(ctx, Op(op.src + ".__class__.__name__", "s"), repr(t.__name__), repr(type(x).__name__), (s,))
            continue
        v = view(x)
        res[t] = v
        if v[-1] % NS or not cal.in_range(v[-1]):
            report(ctx, op, "a whole second in range", repr(v), (s,))
        y = cal.fields(v[1])[0]
        if y >= 100 and (t is Instant or v[2] % (60 * NS) == 0):
            chk(ctx, RT[t], v, x)
    # both accepted: the same moment, at offset zero
    if len(res) == 2 and res[OffsetDateTime][2:] != (0, res[Instant][1]):
        report(ctx, Op("(Instant.parse_rfc2822(s), OffsetDateTime.parse_rfc2822(s))", "s"), "the same instant, offset zero", repr(res), (s,))


def run_edits(ctx, i):
    for s in SEEDS:
        for p in range(i, len(s) + 1, 8):
            for c in ALPHABET:
                lenient(ctx, s[:p] + c + s[p:])
                lenient(ctx, s[:p] + c + s[p + 1:])
                if ctx.thorough:
                    for q in range(p + 1, len(s) + 2):
                        for c2 in "09,:-+ A":
                            e = s[:p] + c + s[p:]
                            lenient(ctx, e[:q] + c2 + e[q:])
                            e = s[:p] + c + s[p + 1:]
                            lenient(ctx, e[:q] + c2 + e[q + 1:])
            for q in range(p, len(s) + 1):
                lenient(ctx, s[:p] + s[q:])
    ctx.sample(f"edits of {s!r}")


def run_misc(ctx):
    for s in ("", " ", "blurb", "Sat,", "Sat", ",", "Sat, 32 Aug 2020 23:12:09 GMT", "Sat, 30 Feb 2020 23:12:09 GMT", "Sat, 15 Foo 2020 23:12:09 GMT", "Sat, 15 Aug 2020 24:12:09 GMT",
              "Sat, 15 Aug 2020 23:60:09 GMT", "Sat, 15 Aug 2020 23:12:60 GMT", "Sat, 15 Aug 20201 23:12:09 GMT", "Sat, 15 Aug 2020", "15 Aug 2020 +0000", "23:12:09 GMT",
              "Sat, 15 Aug 2020 23:12:09.0 GMT", "Sat, 15 Aug 2020 23 GMT", "Sat, 0 Aug 2020 23:12:09 GMT", "Sat, 15 Aug 2020 23:12:09 +2400", "Sat, 15 Aug 2020 23:12:09 -9900"):
        ctx.states += 1
        chk(ctx, PI, VALUE, s)
        chk(ctx, PO, VALUE, s)
    # after the range once the offset is applied
    # (the standard library reads years below 100 as two-digit years)
    chk(ctx, PO, VALUE, "31 Dec 9999 23:30:00 -0100")
    for bad in (None, 3, b"Sat, 15 Aug 2020 23:12:09 GMT"):
        chk(ctx, PI, Err(TypeError, ValueError, AttributeError), bad)
        chk(ctx, PO, Err(TypeError, ValueError, AttributeError), bad)
    ctx.sample("malformed dates, fields out of range")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
