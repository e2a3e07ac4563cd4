from __future__ import annotations

import itertools
import os
import time

from .. import cal, pool, synth, vals
from ..cal import NS
from ..vals import Op, chk, eI, eL, eO, eS, eZ, mkI, mkL, mkO, mkS

ID = "C15"
TITLE = "ISO 8601 and RFC 3339 text of a moment parses back to the identical value"

SYS = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "America/St_Johns", "Africa/Monrovia"]
# every presence/absence of a nonzero digit in the nine decimals
FRACS = sorted({int("".join(str(d) if b else "0" for b, d in zip(bits, digits))) for bits in itertools.product((0, 1), repeat=9) for digits in ((1, 2, 3, 4, 5, 6, 7, 8, 9), (9, 8, 7, 6, 5, 4, 3, 2, 1))}
               | {n for k in range(30) for n in (2**k - 1, 2**k, 2**k + 1)} | {500_000_000, 499_999_999, 999_999_999, 999_999_000, 999_000_000})


def bounds(tier):
    return {
        "offsets": "all 172799 whole-second offsets (ISO)" if tier == "thorough" else "all 2879 whole-minute offsets, and every second of 8 hour-long offset ranges",
        "fractions": "all 512 zero/nonzero patterns of the nine decimals, for every type; a dense set: every multiple of 100 us (thorough: 1 us), "
        "every multiple of 99991 ns, the first and last 2000 ns, for every type and format",
        "zones": "every zone of the database and every alias, around its last 30 transitions (thorough: all), both sides of every fold; synthetic zones",
        "dates": "15 boundary dates, the extremes of the range, years 1..9999 (first and last day of each)",
        "system": SYS,
    }


def shards(tier):
    synth.install(tier)
    return [("zones", c) for c in pool.chunk(pool.keys(), 48)] + [("alias", c) for c in pool.chunk([(k, a) for k, _, al in pool.zone_index() for a in al], 8)] + [
        ("offsets", i) for i in range(16)] + [("fracs", i) for i in range(8)] + [("dense", i) for i in range(16)] + [("years", i) for i in range(8)] + [
        ("synth", c) for c in pool.chunk(synth.specs(tier), 8)] + [("system", k) for k in SYS]


ISO = Op("x.format_common_iso()", "x")
STR = Op("str(x)", "x")
RT = {t: Op(f"{t}.parse_common_iso(x.format_common_iso())", "x") for t in ("Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime", "LocalDateTime")}
R3339 = Op("x.format_rfc3339()", "x")
RT3339 = {t: Op(f"{t}.parse_rfc3339(x.format_rfc3339())", "x") for t in ("Instant", "OffsetDateTime")}
P_ISO = {t: Op(f"{t}.parse_common_iso(s)", "s") for t in RT}
P_3339 = {t: Op(f"{t}.parse_rfc3339(s)", "s") for t in RT3339}


def instant(ctx, u, full=True):
    x = mkI(u)
    ctx.states += 1
    t = cal.local_str(u) + "Z"
    e = eI(u)
    chk(ctx, ISO, t, x)
    chk(ctx, RT["Instant"], e, x)
    chk(ctx, R3339, t.replace("T", " "), x)
    chk(ctx, RT3339["Instant"], e, x)
    if full:
        chk(ctx, STR, t, x)
        chk(ctx, P_ISO["Instant"], e, t[:-1] + "+00:00")
        for sep in "Tt_ ":
            for z in ("Z", "z", "+00:00", "-00:00"):
                chk(ctx, P_3339["Instant"], e, t[:-1].replace("T", sep) + z)


def local(ctx, ns, full=True):
    x = mkL(ns)
    ctx.states += 1
    t = cal.local_str(ns)
    chk(ctx, ISO, t, x)
    chk(ctx, RT["LocalDateTime"], eL(ns), x)
    if full:
        chk(ctx, STR, t, x)


def offset(ctx, u, off, full=True):
    loc = u + off * NS
    if not cal.in_range(loc):
        return
    x = mkO(u, off)
    ctx.states += 1
    e = eO(u, off)
    t = cal.local_str(loc)
    o = cal.off_str(off)
    chk(ctx, ISO, t + o, x)
    chk(ctx, RT["OffsetDateTime"], e, x)
    if full:
        chk(ctx, STR, t + o, x)
        if off == 0:
            chk(ctx, P_ISO["OffsetDateTime"], e, t + "Z")
            chk(ctx, P_ISO["OffsetDateTime"], e, t + "-00:00")
        # accepted spellings of the same value
        if off % 60 == 0:
            chk(ctx, P_ISO["OffsetDateTime"], e, t + o + ":00")
    if off % 60 == 0:
        chk(ctx, R3339, t.replace("T", " ") + o, x)
        chk(ctx, RT3339["OffsetDateTime"], e, x)
        if full:
            for sep in "Tt_ ":
                chk(ctx, P_3339["OffsetDateTime"], e, t.replace("T", sep) + o)
                if off == 0:
                    for z in ("Z", "z", "-00:00"):
                        chk(ctx, P_3339["OffsetDateTime"], e, t.replace("T", sep) + z)


def zoned(ctx, key, u, off, full=False):
    loc = u + off * NS
    if not cal.in_range(loc):
        return
    x = mkI(u).to_tz(key)
    ctx.states += 1
    t = cal.local_str(loc) + cal.off_str(off) + f"[{key}]"
    chk(ctx, ISO, t, x)
    chk(ctx, RT["ZonedDateTime"], eZ(key, u, off), x)
    if full:
        chk(ctx, STR, t, x)
        if off == 0:
            chk(ctx, P_ISO["ZonedDateTime"], eZ(key, u, off), cal.local_str(loc) + f"Z[{key}]")


def edge(ctx, z, tr, key=None):
    for t, b, a in tr:
        d = abs(b - a)
        for s, ns in ((t - d - 1, 0), (t - d, 0), (t - d // 2, 500_000_000), (t - 1, 999_999_999), (t, 0), (t, 1), (t + d // 2, 0), (t + d - 1, 120_000), (t + d, 0)):
            u = s * NS + ns
            if cal.in_range(u):
                zoned(ctx, key or z.key, u, z.offset(s), full=ns == 1)


def run_zones(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z)
        edge(ctx, z, tr if ctx.thorough else tr[:4] + tr[-30:])
        for u in pool.BOUNDARY_UTC + pool.EXTREME_UTC:
            zoned(ctx, k, u, z.offset(u // NS), full=True)
    ctx.sample(f"{k}: format and parse at 9 instants around {len(tr)} transitions")


def run_alias(ctx, ks):
    for k, a in ks:
        z = pool.zone(k)
        edge(ctx, z, pool.transitions(z, far=False)[-3:], key=a)
        for u in (pool.BOUNDARY_UTC[0], cal.local_ns(1800, 1, 1, 5), cal.local_ns(2023, 7, 1)):
            zoned(ctx, a, u, z.offset(u // NS), full=True)
    ctx.sample(f"alias {a} of {k} keeps its own name")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        edge(ctx, z, z.transitions_between(pool.s1(1900), pool.s1(2026))[-4:])
    ctx.sample(f"synthetic {sp}")


def run_offsets(ctx, i):
    base = cal.local_ns(2023, 10, 29, 2, 30, 15)
    if ctx.thorough:
        offs = range(-86399 + i, 86400, 16)
    else:
        offs = sorted({*range(-86340 + 60 * i, 86400, 60 * 16), *(h * 3600 + s for h in (-24, -13, -1, 0, 5, 9, 13, 23) for s in range(i, 3600, 16) if abs(h * 3600 + s) < 86400)})
    for o in offs:
        offset(ctx, base, o, full=o % 60 == 0 or o % 97 == 0)
        if o % 900 == 0:
            for u in pool.BOUNDARY_UTC + pool.EXTREME_UTC:
                offset(ctx, u, o, full=False)
    for u in pool.BOUNDARY_UTC + pool.EXTREME_UTC:
        for o in pool.OFFSETS[i::16]:
            offset(ctx, u, o)
    ctx.sample(f"OffsetDateTime with offset {cal.off_str(o)}")


def run_fracs(ctx, i):
    base = cal.local_ns(2020, 8, 15, 23, 12, 9)
    os.environ["TZ"] = "America/New_York"
    time.tzset()
    vals.EXTRA_SETUP = "os.environ['TZ'] = 'America/New_York'; time.tzset()"
    for f in FRACS[i::8]:
        u = base + f
        instant(ctx, u)
        local(ctx, u)
        offset(ctx, u, 3600)
        offset(ctx, u, -(3 * 3600 + 29 * 60 + 44))
        zoned(ctx, "Europe/Amsterdam", u, 7200)
        zoned(ctx, "Africa/Monrovia", cal.local_ns(1950, 1, 1) + f, -2670)
        system(ctx, u, -4 * 3600)
    # trailing zeros are accepted on input
    for f in FRACS[i::8]:
        digits = f"{f:09d}"
        for n in range(1, 10):
            if int(digits[n:] or 0) == 0:
                s = cal.local_str(base)
                chk(ctx, P_ISO["Instant"], eI(base + f), f"{s}.{digits[:n]}Z")
                chk(ctx, P_ISO["LocalDateTime"], eL(base + f), f"{s}.{digits[:n]}")
                chk(ctx, P_ISO["OffsetDateTime"], eO(base + f, 0), f"{s}.{digits[:n]}+00:00")
                chk(ctx, P_ISO["ZonedDateTime"], eZ("UTC", base + f, 0), f"{s}.{digits[:n]}+00:00[UTC]")
                chk(ctx, P_3339["OffsetDateTime"], eO(base + f, 0), f"{s}.{digits[:n]}Z")
                chk(ctx, P_3339["Instant"], eI(base + f), f"{s}.{digits[:n]}Z")
    ctx.sample(f"fraction .{digits} in every type")


def run_dense(ctx, i):
    """exactness of every decimal fraction, not only of those with a nice binary form"""
    step = 1000 if ctx.thorough else 100_000
    fr = sorted({*range(0, NS, step), *range(0, NS, 99_991), *range(2000), *range(NS - 2000, NS)})[i::16]
    os.environ["TZ"] = "America/New_York"
    time.tzset()
    vals.EXTRA_SETUP = "os.environ['TZ'] = 'America/New_York'; time.tzset()"
    bases = (cal.local_ns(2020, 8, 15, 23, 12, 9), cal.local_ns(1969, 12, 31, 23, 59, 59), cal.local_ns(1, 1, 3), cal.local_ns(9999, 12, 29, 23, 59, 59))
    for n, f in enumerate(fr):
        u = bases[n % 4] + f
        instant(ctx, u, False)
        local(ctx, u, False)
        offset(ctx, u, -3600, False)
        if n % 4 < 2:
            zoned(ctx, "Asia/Tokyo", u, 32400)
        if n % 4 == 0:
            system(ctx, u, -4 * 3600)
    ctx.sample(f"fraction {f} ns in every type")


def run_years(ctx, i):
    for y in range(1 + i, 10000, 8):
        for m, d, h in ((1, 1, 0), (12, 31, 23)) if not ctx.thorough else ((1, 1, 0), (2, 28, 3), (6, 30, 12), (12, 31, 23)):
            ns = cal.local_ns(y, m, d, h, 59, 59, 1)
            instant(ctx, ns, False)
            local(ctx, ns, False)
            offset(ctx, ns, 2 * 3600, False)
            z = pool.zone("Europe/Amsterdam")
            zoned(ctx, z.key, ns, z.offset(ns // NS))
    for u in (pool.BOUNDARY_UTC + pool.EXTREME_UTC)[i::8]:
        instant(ctx, u)
        local(ctx, u)
        offset(ctx, u, 0)
    ctx.sample(f"year {y}")


def system(ctx, u, off):
    loc = u + off * NS
    x = mkS(u)
    ctx.states += 1
    t = cal.local_str(loc) + cal.off_str(off)
    chk(ctx, ISO, t, x)
    chk(ctx, STR, t, x)
    chk(ctx, RT["SystemDateTime"], eS(u, off), x)
    chk(ctx, P_ISO["OffsetDateTime"], eO(u, off), t)


def run_system(ctx, k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    z = pool.zone(k)
    for t, b, a in pool.recent(z, 1930, 2036):
        d = abs(b - a)
        for s, ns in ((t - d - 1, 0), (t - d, 0), (t - d // 2, 500_000_000), (t - 1, 999_999_999), (t, 0), (t, 1), (t + d, 0)):
            system(ctx, s * NS + ns, z.offset(s))
    ctx.sample(f"SystemDateTime under TZ={k}")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
