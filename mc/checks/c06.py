from __future__ import annotations

import os
import time

from whenever import Instant, LocalDateTime, OffsetDateTime, SystemDateTime, ZonedDateTime

from .. import cal, pool, vals
from ..cal import NS
from ..vals import TYPE, Op, chk, mkI, mkL, mkO, mkS, view

ID = "C06"
TITLE = "Exact types compare, hash and subtract by instant, whatever their form"

ZN = ["UTC", "Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Africa/Monrovia", "Asia/Kathmandu", "Europe/Paris", "Etc/UTC"]
SYS = ["Europe/Amsterdam", "America/Havana", "UTC", "Australia/Lord_Howe"]


def bounds(tier):
    return {"instants": "folds and gaps of the zones (+-1 ns), epoch, extremes", "forms": f"Instant, 9 offsets, {len(ZN)} zones, system (under the current and two other offsets)",
            "pairs of zones": "one moment in every zone name with every zone name",
            "pairs": "all ordered pairs per system zone of " + str(SYS)}


def shards(tier):
    n = 12
    return [("pairs", tz, i, n) for tz in SYS for i in range(n)] + [("names", i, 16) for i in range(16)] + [("local",), ("triples",), ("cache",)]


def instants(tier):
    us = {cal.local_ns(1970, 1, 1) + e for e in (-NS, -1, 0, 1, NS)}
    for k in ZN:
        z = pool.zone(k)
        for t, b, a in pool.recent(z)[-2:]:
            d = abs(a - b) * NS
            us |= {t * NS - d, t * NS - d // 2, t * NS - 1, t * NS, t * NS + 1, t * NS + d // 2}
    us |= {0, 1, NS, cal.LOCAL_MAX, cal.LOCAL_MAX - 1, cal.local_ns(1937, 7, 1), cal.local_ns(1972, 1, 6, 23)}
    if tier == "thorough":
        us |= set(pool.BOUNDARY_UTC) | set(pool.EXTREME_UTC)
    return sorted(us)


def forms(u, sys_zone):
    out = [("I", None, mkI(u))]
    for o in (0, 3600, 7200, -5 * 3600, 37800, 1, -86399, -2670, -1800):
        if cal.in_range(u + o * NS):
            out.append(("O", o, mkO(u, o)))
    for k in ZN:
        o = pool.zone(k).offset(u // NS)
        if cal.in_range(u + o * NS):
            out.append(("Z", (k, o), mkI(u).to_tz(k)))
    o = sys_zone.offset(u // NS)
    if cal.in_range(u + o * NS):
        out.append(("S", o, mkS(u)))
    for o2 in (12600, -3600):  # made under another system zone
        if o2 != o and cal.in_range(u + o2 * NS) and cal.in_range(u + o2 * NS - 2 * cal.DAY_NS) and cal.in_range(u + o2 * NS + 2 * cal.DAY_NS):
            out.append(("S", o2, SystemDateTime.parse_common_iso(str(mkO(u, o2)))))
    return out


REL = Op("(a < b, a <= b, a == b, a != b, a > b, a >= b, a != b or hash(a) == hash(b))", "a b")
DIFF = Op("a - b", "a b")
DIFF2 = Op("a.difference(b)", "a b")
EXACT = Op("a.exact_eq(b)", "a b")


def run_pairs(ctx, tz, i, n):
    os.environ["TZ"] = tz
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {tz!r}; time.tzset()"
    z = pool.zone(tz)
    objs = [(u, t, p, x) for u in instants(ctx.tier) for t, p, x in forms(u, z)]
    for u, t, p, x in objs[i::n]:
        hx = hash(x)
        for u2, t2, p2, y in objs:
            ctx.states += 1
            ctx.transitions += 9
            ctx.traces += 9
            if (x < y, x <= y, x == y, x != y, x > y, x >= y, x != y or hx == hash(y)) != (
                u < u2, u <= u2, u == u2, u != u2, u > u2, u >= u2, True):
                chk(ctx, REL, (u < u2, u <= u2, u == u2, u != u2, u > u2, u >= u2, True), x, y)
            if (x - y).in_nanoseconds() != u - u2:
                chk(ctx, DIFF, ("TD", u - u2), x, y)
            if x.difference(y).in_nanoseconds() != u - u2:
                chk(ctx, DIFF2, ("TD", u - u2), x, y)
            if t == t2:
                if x.exact_eq(y) is not (u == u2 and p == p2):
                    chk(ctx, EXACT, u == u2 and p == p2, x, y)
            else:
                ctx.outcomes["cross-type pairs"] += 1
                if u == u2:
                    ctx.outcomes["equal cross-type pairs"] += 1
                    chk(ctx, EXACT, TYPE, x, y)
    ctx.sample(f"{len(objs)} values of all exact types under TZ={tz}: every ordered pair")


def run_triples(ctx):
    """sorting and set membership of mixed forms follow the instant"""
    z = pool.zone("UTC")
    os.environ["TZ"] = "UTC"
    time.tzset()
    objs = [(u, x) for u in instants("quick") for _, _, x in forms(u, z)]
    o = Op("[view(v)[-1] for v in sorted(xs)]", "xs", view=view)
    for r in range(7):
        xs = [x for _, x in objs[r::7]]
        us = sorted(u for u, _ in objs[r::7])
        ctx.states += len(xs)
        chk(ctx, o, us, list(reversed(xs)))
        chk(ctx, Op("len(set(xs))", "xs"), len(set(us)), xs)
        chk(ctx, Op("(view(min(xs))[-1], view(max(xs))[-1])", "xs", view=view), (us[0], us[-1]), xs)


def run_cache(ctx):
    """values made before and after the cache of zone data was cleared are interchangeable"""
    os.environ["TZ"] = "UTC"
    time.tzset()
    c = "[zoneinfo.ZoneInfo.clear_cache(), b := %s, %s][-1]"
    rel = "(a == b, b == a, a != b, a < b, a <= b, hash(a) == hash(b), a.exact_eq(b), b.exact_eq(a), (a - b).in_nanoseconds(), (b - a).in_nanoseconds())"
    same = (True, True, False, False, True, True, True, True, 0, 0)
    for u in instants("quick"):
        for t, p, x in forms(u, pool.zone("UTC")):
            if t != "Z":
                continue
            ctx.states += 1
            n = x.timestamp_nanos()
            chk(ctx, Op(c % ("Instant.from_timestamp_nanos(n).to_tz(k)", rel), "a n k"), same, x, n, p[0])
            chk(ctx, Op(c % ("pickle.loads(pickle.dumps(a))", rel), "a"), same, x)
            chk(ctx, Op(c % ("ZonedDateTime.parse_common_iso(str(a))", rel), "a"), same, x)
            chk(ctx, Op(c % ("a.to_tz(a.tz)", rel), "a"), same, x)
            # and one nanosecond or one zone apart they are not
            if u + 1 <= cal.LOCAL_MAX and cal.in_range(u + 1 + p[1] * NS):
                chk(ctx, Op(c % ("Instant.from_timestamp_nanos(n).to_tz(k)", "(a == b, a < b, a.exact_eq(b), (b - a).in_nanoseconds())"), "a n k"),
                    (False, True, False, 1), x, n + 1, p[0])
            for k2 in ("Europe/Paris", "Etc/UTC"):
                if k2 != p[0] and cal.in_range(u + pool.zone(k2).offset(u // NS) * NS):
                    chk(ctx, Op(c % ("Instant.from_timestamp_nanos(n).to_tz(k)", "(a == b, hash(a) == hash(b), a.exact_eq(b))"), "a n k"), (True, True, False), x, n, k2)
    ctx.sample("zoned values made before and after zoneinfo.ZoneInfo.clear_cache()")


def run_names(ctx, i, n):
    """one moment in every zone: equal, with the same hash, but exactly equal only under the same name"""
    ks = sorted(n for k, _, als in pool.zone_index() for n in (k, *als))
    u = cal.local_ns(2023, 10, 29, 0, 45, 7)
    xs = [mkI(u).to_tz(k) for k in ks]
    ys = [mkI(u + 1).to_tz(k) for k in ks]
    for a in range(i, len(ks), n):
        x, h = xs[a], hash(xs[a])
        for b, k in enumerate(ks):
            y, y1 = xs[b] if b != a else mkI(u).to_tz(k), ys[b]
            ctx.states += 1
            ctx.transitions += 10
            ctx.traces += 1
            if (x == y, x != y, x < y, x <= y, h == hash(y), x.exact_eq(y), x == y1, x < y1, x.exact_eq(y1)) != (True, False, False, True, True, a == b, False, True, False):
                chk(ctx, NAMES, (True, False, False, True, True, a == b), x, y)
                chk(ctx, NAMES, (False, True, True, True, False, False), x, y1)
    ctx.sample(f"{ks[a]} with each of {len(ks)} zone names")


NAMES = Op("(x == y, x != y, x < y, x <= y, x == y and hash(x) == hash(y), x.exact_eq(y))", "x y")


def run_local(ctx):
    ls = [cal.local_ns(2023, 3, 26, 2, 30), cal.local_ns(2023, 10, 29, 2, 30), 0, cal.LOCAL_MAX, cal.local_ns(1970, 1, 1), cal.local_ns(1970, 1, 1) + 1,
          cal.local_ns(2023, 10, 29, 2, 30) + 1, cal.local_ns(2024, 2, 29)]
    for a in ls:
        for b in ls:
            ctx.states += 1
            chk(ctx, REL, (a < b, a <= b, a == b, a != b, a > b, a >= b, True), mkL(a), mkL(b))
    exact = [x for u in (cal.local_ns(2023, 3, 26, 1), cal.local_ns(2023, 10, 29, 1)) for _, _, x in forms(u, pool.zone("UTC"))]
    for x in exact:
        for b in ls:
            y = mkL(b)
            ctx.states += 1
            chk(ctx, Op("(a == b, a != b, b == a, b != a)", "a b"), (False, True, False, True), x, y)
            for s in ("a < b", "a <= b", "a > b", "a >= b", "b < a", "b >= a", "a - b"):
                chk(ctx, Op(s, "a b"), TYPE, x, y)
        chk(ctx, Op("(a == None, a == 3, a != 'x', a == a.timestamp())", "a"), (False, False, True, False), x)
    # sources of the local value do not matter
    for a in ls[:2]:
        for src in ("ZonedDateTime(2023, 10, 29, 2, 30, tz='Europe/Amsterdam', disambiguate='later').local()",
                    "ZonedDateTime(2023, 10, 29, 2, 30, tz='Europe/Amsterdam', disambiguate='earlier').local()",
                    "OffsetDateTime(2023, 10, 29, 2, 30, offset=1).local()", "Date(2023, 10, 29).at(Time(2, 30))",
                    "LocalDateTime.from_py_datetime(datetime.datetime(2023, 10, 29, 2, 30, fold=1))"):
            y = ls[1]
            chk(ctx, Op(f"(lambda v: (v == a, hash(v) == hash(a), v < a, v <= a))({src})", "a"), (a == y, a == y or False, y < a, y <= a) if a == y else (False, False, y < a, y <= a), mkL(a))
    ctx.sample("LocalDateTime pairs, and LocalDateTime against exact types")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
