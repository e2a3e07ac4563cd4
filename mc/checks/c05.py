from __future__ import annotations

import itertools

from whenever import DateDelta, DateTimeDelta, TimeDelta

from .. import cal
from ..cal import MAX_DAYS as MD, MAX_MONTHS as MM, MAX_TDELTA as MX, NS
from ..vals import VALUE, Op, chk, mkDD, mkDTD, mkTD
from . import c03, c04

ID = "C05"
TITLE = "ISO 8601 durations round-trip exactly and only valid durations parse"

TOKENS = ["P", "T", "-", "+", "1", "0", "25", ".", "5", "Y", "M", "W", "D", "H", "S"]
TYPES = {"TD": TimeDelta, "DD": DateDelta, "DTD": DateTimeDelta}
PARSE = {k: Op(f"{t.__name__}.parse_common_iso(s)", "s") for k, t in TYPES.items()}


def bounds(tier):
    n = 5 if tier == "quick" else 6
    return {
        "roundtrip": "every value of the C03/C04 alphabets and every fraction length 1..9",
        "language": f"all token strings of length <= {n} over {TOKENS} starting with P, -P or +P; all of length <= 4",
        "composed": "every subset of the 7 components x 6 digit shapes x sign prefix",
    }


def shards(tier):
    n = 5 if tier == "quick" else 6
    out = [("round",), ("composed",), ("frac",), ("edit",)]
    out += [("lang", pre, t, n) for pre in (("P",), ("-", "P"), ("+", "P")) for t in TOKENS]
    out += [("lang0", t) for t in TOKENS]
    return out


# ---- the grammar, recognised by hand ---------------------------------
def digits(s, i):
    j = i
    while j < len(s) and s[j] in "0123456789":
        j += 1
    return j


def parse(kind, s):
    """(months, days, ns) or None"""
    i, sign = 0, 1
    if s[:1] in ("+", "-"):
        sign = -1 if s[0] == "-" else 1
        i = 1
    if s[i:i + 1] != "P":
        return None
    i += 1
    mo = d = ns = 0
    n_date = n_time = 0
    order = "YMWD"
    while i < len(s) and s[i] != "T":
        j = digits(s, i)
        if j == i or j >= len(s) or s[j] not in order:
            return None
        v, u = int(s[i:j]), s[j]
        order = order[order.index(u) + 1:]
        mo += v * {"Y": 12, "M": 1}.get(u, 0)
        d += v * {"W": 7, "D": 1}.get(u, 0)
        n_date += 1
        i = j + 1
    if i < len(s):
        i += 1  # T
        order = "HMS"
        while i < len(s):
            j = digits(s, i)
            if j == i or j >= len(s):
                return None
            v = int(s[i:j]) * NS
            if s[j] == ".":
                k = digits(s, j + 1)
                if not 1 <= k - j - 1 <= 9 or s[k:k + 1] != "S":
                    return None
                v += int(s[j + 1:k].ljust(9, "0"))
                j = k
            u = s[j]
            if u not in order:
                return None
            order = order[order.index(u) + 1:]
            ns += v * {"H": 3600, "M": 60, "S": 1}[u]
            n_time += 1
            i = j + 1
        if n_time == 0:
            return None
    if n_date + n_time == 0:
        return None
    if kind == "TD" and n_date or kind == "DD" and n_time:
        return None
    if mo > MM or d > MD or ns > MX:
        return None
    return sign * mo, sign * d, sign * ns


def expect(kind, s):
    r = parse(kind, s)
    if r is None:
        return VALUE
    return {"TD": ("TD", r[2]), "DD": ("DD", *r[:2]), "DTD": ("DTD", *r)}[kind]


def check(ctx, s):
    ctx.states += 1
    for k, op in PARSE.items():
        e = expect(k, s)
        chk(ctx, op, e, s)
        if e is not VALUE:
            ctx.outcomes["accepted"] += 1


def run_lang(ctx, pre, first, n):
    for ln in range(0, n):
        for rest in itertools.product(TOKENS, repeat=ln):
            check(ctx, "".join(pre + (first,) + rest))
    ctx.sample("".join(pre + (first,)) + " followed by every token string of length < %d" % n)


def run_lang0(ctx, first):
    check(ctx, first)
    if first == "1":
        check(ctx, "")
    for ln in range(1, 4):
        for rest in itertools.product(TOKENS, repeat=ln):
            check(ctx, first + "".join(rest))


o_fmt = Op("x.format_common_iso()", "x")
o_str = Op("str(x)", "x")
o_rt = {k: Op(f"{t.__name__}.parse_common_iso(x.format_common_iso()) == x", "x") for k, t in TYPES.items()}


def rt(ctx, kind, x, text):
    ctx.states += 1
    chk(ctx, o_fmt, text, x)
    chk(ctx, o_str, text, x)
    chk(ctx, o_rt[kind], True, x)
    chk(ctx, PARSE[kind], expect(kind, text), text)
    chk(ctx, PARSE[kind], expect(kind, "+" + text.lstrip("-")), "+" + text.lstrip("-"))


def run_round(ctx):
    tds = set(c03.values("thorough"))
    tds |= {s * (h * 3600 * NS + m * 60 * NS + sec * NS + f) for h in (0, 1, 99) for m in (0, 1, 59) for sec in (0, 1, 10, 59)
            for f in (0, 1, 10, 100, 123, 999_999_999, 500_000_000, 120_000_000, 1000, 999_000, 100_000_001) for s in (1, -1)}
    for v in sorted(tds):
        rt(ctx, "TD", mkTD(v), cal.tdelta_iso(v))
    for m, d in c04.signed(c04.MO_T, c04.DD_T):
        rt(ctx, "DD", mkDD(m, d), cal.ddelta_iso(m, d))
    for m, d, t in c04.triples("thorough"):
        rt(ctx, "DTD", mkDTD(m, d, t), cal.dtdelta_iso(m, d, t))
    ctx.sample("format, parse, sign prefix of every boundary duration, e.g. " + cal.tdelta_iso(-123456789012345678))


def run_frac(ctx):
    """every fraction with up to 3 digits, and 1-digit-set/cleared fractions of each length"""
    fr = ["%0*d" % (n, v) for n in (1, 2, 3) for v in range(10**n)]
    for n in range(4, 12):
        for i in range(n):
            for d in "159":
                fr.append("0" * i + d + "0" * (n - i - 1))
                fr.append("9" * i + d + "9" * (n - i - 1))
    for f in fr:
        for whole in ("0", "1", "59", "36159999999", "100000000000"):
            check(ctx, f"PT{whole}.{f}S")
        check(ctx, f"-P1DT2H0.{f}S")
    ctx.sample("PT36159999999.000000001S parses to the exact nanosecond")


def run_composed(ctx):
    shapes = ["0", "1", "7", "12", "007", "100"]
    for pre in ("", "-", "+"):
        for mask in range(1 << 7):
            for k, sh in enumerate(shapes):
                d = "".join(shapes[(k + i) % 6] + u for i, u in enumerate("YMWD") if mask >> i & 1)
                t = "".join(shapes[(k + i + 3) % 6] + u for i, u in enumerate("HMS") if mask >> (4 + i) & 1)
                check(ctx, pre + "P" + d + ("T" + t if t else ""))
                check(ctx, pre + "P" + d + "T" + t)
                check(ctx, pre + "P" + d + t)
    # ranges
    for u, mx in (("Y", 9999), ("M", MM), ("W", MD // 7), ("D", MD)):
        for v in (mx - 1, mx, mx + 1, mx * 10):
            check(ctx, f"P{v}{u}")
            check(ctx, f"-P{v}{u}")
    for u, f in (("H", 3600 * NS), ("M", 60 * NS), ("S", NS)):
        for v in (MX // f - 1, MX // f, MX // f + 1, MX, 10**30):
            check(ctx, f"PT{v}{u}")
            check(ctx, f"-PT{v}{u}")
    check(ctx, f"PT{MX // NS}.000000001S")
    check(ctx, f"PT{MX // NS - 1}.999999999S")
    check(ctx, f"PT0.{'0' * 9}S")
    ctx.sample("all 128 component subsets in 6 digit shapes, both with and without the T separator")


ALPHA = "0159PTYMWDHS+-., _:Zptymwdhs\u0660\uff11\u00b2\n\x00\u2212"


def run_edit(ctx):
    """all single-character edits of representative durations"""
    for base in ("P1Y2M3W4DT5H6M7.089S", "-PT1H30M", "PT0S", "P0D", "+P1W", "P12M", "PT0.5S", "P1DT1S", "-P9999Y", "PT1M"):
        check(ctx, base)
        for i in range(len(base) + 1):
            check(ctx, base[:i] + base[i + 1:])
            for c in ALPHA:
                check(ctx, base[:i] + c + base[i:])
                if i < len(base):
                    check(ctx, base[:i] + c + base[i + 1:])
            if i + 1 < len(base):
                check(ctx, base[:i] + base[i + 1] + base[i] + base[i + 2:])
    ctx.sample("every insertion, deletion, substitution, transposition of P1Y2M3W4DT5H6M7.089S")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
