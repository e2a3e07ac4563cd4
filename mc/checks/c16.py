from __future__ import annotations

import itertools

from whenever import InvalidOffset

from .. import cal, pool, vals
from ..cal import NS
from ..vals import Err, Op, VALUE, chk, eI, eL, eO, eZ

ID = "C16"
TITLE = "Parsers accept exactly their format: anything else is a ValueError"

ALPHABET = list("0123569TtZzPpYMWDHS-+:.,_ []/") + ["\n", "\0", "\t", "٣", "０", "−", "²", "é", "\ud800"]
BADZONE = Err(ValueError, KeyError, OSError)  # unknown key: zoneinfo's own error is let through

SEEDS = {
    "Date": ["2023-02-28", "2024-02-29", "0001-01-01", "9999-12-31", "2023-10-31"],
    "YearMonth": ["2023-02", "0001-01", "9999-12", "2023-10"],
    "MonthDay": ["--02-29", "--12-31", "--01-01", "--04-30"],
    "Time": ["02:30:59", "23:59:59.999999999", "00:00:00.5", "20:03:05.000100"],
    "LocalDateTime": ["2023-02-28T02:30:59", "0001-01-01T23:59:59.999999999", "9999-12-31T00:00:00.5", "2020-09-30T20:03:05.000100"],
    "Instant": ["2023-02-28T02:30:59Z", "0001-01-01T23:59:59.999999999Z", "9999-12-31T00:00:00.5+00:00", "2020-09-30T20:03:05Z"],
    "OffsetDateTime": ["2023-02-28T02:30:59Z", "0001-01-01T23:59:59.999999999+23:59", "9999-12-31T00:00:00.5-23:59:59", "2020-09-30T20:03:05+02:30", "2020-09-30T20:03:05-00:00:30"],
    "SystemDateTime": ["2023-02-28T02:30:59Z", "2020-09-30T20:03:05.25+02:30"],
    "ZonedDateTime": ["2023-10-29T02:30:00+02:00[Europe/Amsterdam]", "2023-03-26T01:59:59.999999999+01:00[Europe/Amsterdam]", "2023-02-28T02:30:59Z[UTC]", "1940-01-01T00:00:00-00:44:30[Africa/Monrovia]"],
    "Instant3339": ["2023-02-28T02:30:59Z", "0001-01-01 23:59:59.999999999z", "9999-12-31_00:00:00.5+00:00", "2020-09-30t20:03:05-00:00"],
    "OffsetDateTime3339": ["2023-02-28T02:30:59Z", "0001-01-01 23:59:59.999999999+23:59", "9999-12-31_00:00:00.5-23:59", "2020-09-30t20:03:05-00:00"],
}
PARSE = {k: Op(f"{k}.parse_common_iso(s)" if not k.endswith("3339") else f"{k[:-4]}.parse_rfc3339(s)", "s") for k in SEEDS}


def bounds(tier):
    n = "1" if tier == "quick" else "2 (substitutions and truncations for the date-times; all edits for the shorter formats)"
    return {"formats": list(SEEDS), "seeds": SEEDS, "edits": f"every string at edit distance {n} over a {len(ALPHABET)}-character alphabet (ASCII and non-ASCII digits, separators, controls, a lone surrogate): "
            "substitution, insertion, deletion, transposition; every prefix, suffix and doubling", "fields": "every value 00..99 of every two-digit field, every offset hour x minute x second",
            "non-strings": "None, int, bytes, a datetime"}


def shards(tier):
    out = [("edit", k, s, i) for k, ss in SEEDS.items() for s in ss for i in range(2)]
    if tier == "thorough":
        out += [("edit2", k, s, i) for k, ss in SEEDS.items() for s in ss[:2] for i in range(len(s) + 1)]
    else:
        out += [("edit2", k, ss[0], i) for k, ss in SEEDS.items() if k in ("Date", "YearMonth", "MonthDay", "Time") for i in range(len(ss[0]) + 1)]
    return out + [("fields", k) for k in SEEDS] + [("offsets", i) for i in range(8)] + [("cross",), ("types",)]


# ---- recognisers -----------------------------------------------------
def num(s, i, n):
    t = s[i:i + n]
    if len(t) != n or any(c not in "0123456789" for c in t):
        return None
    return int(t)


def p_date(s):
    if len(s) != 10 or s[4] != "-" or s[7] != "-":
        return None
    y, m, d = num(s, 0, 4), num(s, 5, 2), num(s, 8, 2)
    if None in (y, m, d) or not y or not 1 <= m <= 12 or not 1 <= d <= cal.dim(y, m):
        return None
    return y, m, d


def p_time(s):
    """ns since midnight"""
    if len(s) < 8 or s[2] != ":" or s[5] != ":":
        return None
    h, m, sec = num(s, 0, 2), num(s, 3, 2), num(s, 6, 2)
    if None in (h, m, sec) or h > 23 or m > 59 or sec > 59:
        return None
    ns = 0
    if len(s) > 8:
        if s[8] != "." or not 1 <= len(s) - 9 <= 9:
            return None
        ns = num(s, 9, len(s) - 9)
        if ns is None:
            return None
        ns *= 10 ** (9 - (len(s) - 9))
    return ((h * 60 + m) * 60 + sec) * NS + ns


def p_local(s, seps="T"):
    if len(s) < 19 or s[10] not in seps:
        return None
    d, t = p_date(s[:10]), p_time(s[11:])
    if d is None or t is None:
        return None
    return cal.days(*d) * cal.DAY_NS + t


def split_offset(s):
    """(before, offset text)"""
    for i in range(19, len(s)):
        if s[i] in "+-Zz":
            return s[:i], s[i:]
    return s, ""


def p_off(o, seconds):
    """offset in seconds"""
    if o == "Z":
        return 0
    if len(o) not in ((6, 9) if seconds else (6,)) or o[0] not in "+-" or o[3] != ":" or len(o) == 9 and o[6] != ":":
        return None
    h, m, s = num(o, 1, 2), num(o, 4, 2), num(o, 7, 2) if len(o) == 9 else 0
    if None in (h, m, s) or h > 23 or m > 59 or s > 59:
        return None
    return (h * 3600 + m * 60 + s) * (-1 if o[0] == "-" else 1)


def expect(kind, s):
    if kind == "Date":
        d = p_date(s)
        return VALUE if d is None else ("D", *d)
    if kind == "YearMonth":
        d = p_date(s + "-01")
        return VALUE if d is None else ("YM", *d[:2])
    if kind == "MonthDay":
        d = p_date("2000" + s[1:]) if s[:2] == "--" else None
        return VALUE if d is None else ("MD", *d[1:])
    if kind == "Time":
        t = p_time(s)
        return VALUE if t is None else ("T", t)
    if kind == "LocalDateTime":
        t = p_local(s)
        return VALUE if t is None else eL(t)
    if kind in ("Instant", "Instant3339"):
        body, o = split_offset(s)
        rfc = kind == "Instant3339"
        t = p_local(body, "Tt_ " if rfc else "T")
        if t is None or o not in (("Z", "z", "+00:00", "-00:00") if rfc else ("Z", "+00:00")):
            return VALUE
        return eI(t)
    if kind in ("OffsetDateTime", "OffsetDateTime3339", "SystemDateTime"):
        body, o = split_offset(s)
        rfc = kind == "OffsetDateTime3339"
        t = p_local(body, "Tt_ " if rfc else "T")
        off = 0 if rfc and o == "z" else p_off(o, not rfc)
        if t is None or off is None or not cal.in_range(t - off * NS):
            return VALUE
        return (("S" if kind == "SystemDateTime" else "O"), t, off * NS, t - off * NS)
    if kind == "ZonedDateTime":
        if not s.endswith("]") or "[" not in s:
            return VALUE
        i = s.index("[")
        key = s[i + 1:-1]
        body, o = split_offset(s[:i])
        t, off = p_local(body), p_off(o, True)
        if t is None or off is None or not key or len(key) > 255 or not cal.in_range(t - off * NS):
            return VALUE
        if "]" in key:
            return BADZONE
        try:
            z = pool.zone("America/New_York" if key == "posixrules" else key)
        except KeyError:
            return BADZONE
        if z.offset((t - off * NS) // NS) != off:
            return Err(InvalidOffset)
        return eZ(key, t - off * NS, off)
    raise AssertionError(kind)


def check(ctx, kind, s):
    ctx.states += 1
    e = expect(kind, s)
    chk(ctx, PARSE[kind], e, s)
    if type(e) is not Err:
        ctx.outcomes["accepted"] += 1


def edits(s, alphabet, at=None):
    for i in range(len(s) + 1) if at is None else (at,):
        for c in alphabet:
            yield s[:i] + c + s[i:]
            if i < len(s):
                yield s[:i] + c + s[i + 1:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
        if i + 1 < len(s):
            yield s[:i] + s[i + 1] + s[i] + s[i + 2:]


def run_edit(ctx, kind, s, part):
    assert type(expect(kind, s)) is not Err, (kind, s)
    for e in [s, *edits(s, ALPHABET)][part::2]:
        check(ctx, kind, e)
    if part == 0:
        for i in range(len(s)):
            check(ctx, kind, s[:i])
            check(ctx, kind, s[i:])
            for pad in (" ", "\n", "0", "Z", "-", "\0"):
                check(ctx, kind, pad + s[i:])
                check(ctx, kind, s[:i] + pad)
        for e in (s + s, s + " " + s, s.lower(), s.upper(), s.replace("-", ""), s.replace(":", ""), s.replace("-", "/"), s.replace(".", ","), s.replace("-", "−"),
                  "+" + s, "-" + s, "\ufeff" + s, s + "+00:00", s + "[UTC]", s.swapcase()):
            check(ctx, kind, e)
    ctx.sample(f"{kind}: every string one edit away from {s!r}")


def run_edit2(ctx, kind, s, at):
    short = len(s) <= 12
    first = list("019T-:.Z+ ") + ["٣", "\n"] if not short or not ctx.thorough else ALPHABET
    second = list("0159T-:.Z+ ") + ["\n"]
    for e in edits(s, first, at):
        for e2 in edits(e, second if not short or not ctx.thorough else ALPHABET):
            check(ctx, kind, e2)
    ctx.sample(f"{kind}: two edits away from {s!r}, the first at position {at}")


def run_fields(ctx, kind):
    for s in SEEDS[kind]:
        for i in range(len(s) - 1):
            if num(s, i, 2) is None:
                continue
            for v in range(100):
                check(ctx, kind, f"{s[:i]}{v:02d}{s[i + 2:]}")
        # the day of month against year and month
        if kind not in ("Time",):
            b = {"MonthDay": 2, "YearMonth": None}.get(kind, 5)
            if b is None:
                continue
            for y in ("1900", "2000", "2023", "2024", "0004", "9999", "0000"):
                for m in range(0, 14):
                    for d in (0, 1, 28, 29, 30, 31, 32):
                        e = f"{m:02d}-{d:02d}" + s[b + 5:]
                        check(ctx, kind, (s[:b] if kind == "MonthDay" else y + "-") + e)
    ctx.sample(f"{kind}: every two-digit field 00..99")


HOURLY = [("2020-06-01", "Europe/Amsterdam"), ("2023-11-05", "America/New_York"), ("2023-04-02", "Australia/Lord_Howe"), ("2023-03-12", "America/New_York"), ("1969-12-31", "UTC"), ("2011-12-30", "Pacific/Apia")]


def run_offsets(ctx, i):
    for h, m in itertools.product(range(i, 100, 8), (*range(0, 62), 99)):
        for sign in "+-":
            o = f"{sign}{h:02d}:{m:02d}"
            for b in ("2020-06-01T12:00:00", "0001-01-01T00:00:00.000000001", "9999-12-31T23:59:59.5"):
                check(ctx, "OffsetDateTime", b + o)
                check(ctx, "SystemDateTime", b + o)
                check(ctx, "OffsetDateTime3339", b + o)
                check(ctx, "Instant", b + o)
                check(ctx, "Instant3339", b + o)
                if m in (0, 1, 59, 60):
                    for s in (":00", ":01", ":59", ":60", ":99", ":", "00", ":0", ":00.5"):
                        check(ctx, "OffsetDateTime", b + o + s)
                        check(ctx, "OffsetDateTime3339", b + o + s)
            check(ctx, "ZonedDateTime", f"2020-06-01T12:00:00{o}[America/New_York]")
            if h < 24 and m in (0, 1, 30, 45):
                for hour, (day, z) in itertools.product(range(24), HOURLY):
                    for frac in ("", ".5"):
                        check(ctx, "ZonedDateTime", f"{day}T{hour:02d}:{m:02d}:00{frac}{o}[{z}]")
            check(ctx, "ZonedDateTime", f"2023-10-29T02:30:00{o}[Europe/Amsterdam]")
            check(ctx, "ZonedDateTime", f"2023-03-26T02:30:00{o}[Europe/Amsterdam]")
            check(ctx, "ZonedDateTime", f"2023-03-26T02:30:00{o}[UTC]")
    for z in ("Z", "z", "+00", "+0000", "-0000", "+0", "", "UTC", "GMT", "+00:0", "+1:00", "+01:0", "+ 1:00", "+-1:00", " +01:00", "+01:00 ", "+01：00", "Z+00:00", "+01:00Z", "±01:00"):
        for b in ("2020-06-01T12:00:00", "2020-06-01 12:00:00", "2020-06-01T12:00:00.25"):
            for k in ("OffsetDateTime", "OffsetDateTime3339", "Instant", "Instant3339", "SystemDateTime", "LocalDateTime"):
                check(ctx, k, b + z)
    ctx.sample(f"offset {o} in every format that carries one")


ZONE_TEXTS = ["", "UTC", "utc", "Etc/UTC", "Europe/Amsterdam", "Europe/Amsterdam ", " Europe/Amsterdam", "europe/amsterdam", "Europe", "Europe/", "Europe/Nowhere", "../Europe/Amsterdam", "./UTC", "/UTC",
              "/usr/share/zoneinfo/UTC", "Europe/../UTC", "UTC\n", "UT\0C", "+02:00", "Z", "é", "\ud800", "[UTC", "UTC]", "UTC][UTC", "!UTC", "u-ca=hebrew", "a" * 255, "a" * 256, "tzdata.zi", "zone.tab", "leapseconds", "posixrules", "."]


def run_cross(ctx):
    """text of one type offered to the parser of every other; zone names"""
    for k in SEEDS:
        for ss in SEEDS.values():
            for s in ss:
                check(ctx, k, s)
    for t in ZONE_TEXTS:
        for b in ("2020-06-01T12:00:00Z", "2020-06-01T12:00:00+00:00", "2020-06-01T12:00:00+02:00"):
            s = f"{b}[{t}]"
            e = expect("ZonedDateTime", s)
            chk(ctx, PARSE["ZonedDateTime"], e, s)
            for k in ("OffsetDateTime", "Instant", "LocalDateTime", "Date"):
                check(ctx, k, s)
    ctx.sample("zone texts: " + ", ".join(map(repr, ZONE_TEXTS[:12])))


class Text(str):
    """a str, as far as parsers are concerned"""


RFC2822 = Op("Instant.parse_rfc2822(s)", "s"), Op("OffsetDateTime.parse_rfc2822(s)", "s")
STRP = Op("LocalDateTime.strptime(s, '%Y-%m-%d %H:%M')", "s"), Op("OffsetDateTime.strptime(s, '%Y-%m-%d %H:%M %z')", "s")


def run_types(ctx):
    import datetime

    vals.EXTRA_SETUP = "from mc.checks.c16 import Text"
    no = Err(TypeError, ValueError, AttributeError)
    for ops, s in ((RFC2822, "Sun, 29 Oct 2023 02:30:00 +0000"), (STRP[:1], "2023-10-29 02:30"), (STRP[1:], "2023-10-29 02:30 +0100")):
        for op in ops:
            for bad in (s.encode(), bytearray(s.encode()), memoryview(s.encode()), [s], (s,), list(s), datetime.datetime(2023, 10, 29, 2, 30)):
                ctx.states += 1
                chk(ctx, op, no, bad)
    for k, op in PARSE.items():
        for s in SEEDS[k]:
            for bad in (s.encode(), bytearray(s.encode()), memoryview(s.encode()), [s], (s,), list(s)):
                ctx.states += 1
                chk(ctx, op, Err(TypeError, ValueError), bad)
            # text of a subclass of str is text like any other
            for e in (s, s + "0", s + " ", s + "Z", s[:-1], s[:4], " " + s, "", s + s, s.replace("-", "/"), s[:10] + "x" + s[10:]):
                ctx.states += 1
                chk(ctx, Op(f"{op.src.replace('(s)', '(Text(s))')}", "s", Text=Text), expect(k, e), e)

    for k, op in PARSE.items():
        for bad in (None, 20230101, 2023.5, b"2023-02-28", ["2023-02-28"], datetime.datetime(2023, 2, 28)):
            ctx.states += 1
            chk(ctx, op, Err(TypeError, ValueError), bad)
    ctx.sample("parsing None, numbers, bytes, lists")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
