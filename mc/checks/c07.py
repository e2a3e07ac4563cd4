from __future__ import annotations

import os
import time

from whenever import Instant, OffsetDateTime, ZonedDateTime, TimeDelta

from .. import cal, pool, vals
from ..cal import NS, DAY_NS
from ..vals import Op, chk, eI, eL, eO, eS, eZ, mkI, mkO, mkS, v_zoned, view, lit, RANGE

ID = "C07"
TITLE = "Conversions between exact types keep the instant and yield the right offset"


def bounds(tier):
    return {
        "zones": f"{len(pool.keys())} content-distinct zones, every transition through 2100 and of years {pool.FAR_YEARS}",
        "probes": "9 instants around each transition, as Instant and in 3 offsets (one is the zone's); 15 boundary dates x 6 sub-second parts per zone",
        "years": f"6 instants around each transition of the {len(pool.tails())} rules that go on for ever: of every year to 9998 for {EVERY}, one year in {1 if tier == 'thorough' else 7} for the others",
        "pairs of zones": f"from every one of {len(names())} zone names to every one, at {6 if tier == 'thorough' else 2} moments each",
        "system": f"9 instants around each transition since 1985 of {pool.system(tier)}: into the system zone from every other form, and back",
        "chains": f"breadth-first over conversions between {len(pool.FEATURED)} zones, 14 offsets, Instant and the system zone; depth {3 if tier == 'quick' else 4}",
    }


EVERY = ("Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "America/Santiago")


def years(tier):
    """every year for four zones, one in seven (which covers the calendar's cycle with its days of the week) for the other rules"""
    n = 1 if tier == "thorough" else 7
    return [("years", k, i, 4) for k in EVERY for i in range(4)] + [("years", k, j % n, n) for j, k in enumerate(pool.tails()) if k not in EVERY]


def shards(tier):
    return [("zones", c) for c in pool.chunk(pool.keys(), 64)] + [("alias", i) for i in range(8)] + [
        ("chain", k, u) for k in pool.FEATURED for u in range(2)] + [("offsets", i) for i in range(4)] + [("pairs", i, 32) for i in range(32)] + years(tier) + [("system", k) for k in pool.system(tier)]


o_tz = Op("x.to_tz(key)", "x key")
o_forms = Op("(z.instant(), z.to_fixed_offset(), z.local(), z.date(), z.time(), z.to_tz(z.tz), z.to_tz('UTC'), z.to_fixed_offset(0))", "z")
o_off = Op("x.to_fixed_offset(TimeDelta(seconds=off))", "x off")


def expected_forms(key, u, off):
    loc = u + off * NS
    n, tod = divmod(loc, DAY_NS)
    return (eI(u), eO(u, off), eL(loc), ("D", *cal.civil(n)), ("T", tod), eZ(key, u, off), eZ("UTC", u, 0), eO(u, 0))


def probe(ctx, z, u, full):
    off = z.offset(u // NS)
    x = mkI(u)
    ctx.states += 1
    if not cal.in_range(u + off * NS):
        chk(ctx, o_tz, RANGE, x, z.key)
        return
    e = eZ(z.key, u, off)
    chk(ctx, o_tz, e, x, z.key)
    for o in (off, 0, 19800 if off != 19800 else -3600):
        if cal.in_range(u + o * NS):
            chk(ctx, o_tz, e, mkO(u, o), z.key)
    if full:
        chk(ctx, o_forms, expected_forms(z.key, u, off), x.to_tz(z.key))


def run_zones(ctx, ks):
    for key in ks:
        z = pool.zone(key)
        tr = pool.transitions(z)
        for i, u in enumerate(pool.edge_instants(z, tr)):
            probe(ctx, z, u, full=ctx.thorough or i % 9 in (2, 3, 7))
        for u in pool.BOUNDARY_UTC + pool.EXTREME_UTC:
            probe(ctx, z, u, full=True)
    ctx.sample(f"{key}: {len(tr)} transitions, Instant.to_tz and back at 9 instants each")


def run_alias(ctx, i):
    al = [(a, k) for k, _, als in pool.zone_index() for a in als]
    for a, k in al[i::8]:
        z = pool.zone(k)
        for u in pool.BOUNDARY_UTC[::5]:
            ctx.states += 1
            chk(ctx, o_tz, eZ(a, u, z.offset(u // NS)), mkI(u), a)
    ctx.sample(f"alias {a} of {k} keeps its own name")


def names():
    return sorted(n for k, _, als in pool.zone_index() for n in (k, *als))


def run_pairs(ctx, i, n):
    """from every zone name to every zone name"""
    ks = names()
    for a in range(i, len(ks), n):
        us = PAIR_UTC if ctx.thorough else PAIR_UTC[a // n % 3::3]
        for u in us:
            x = mkI(u).to_tz(ks[a])
            for k in ks:
                ctx.states += 1
                chk(ctx, o_tz, eZ(k, u, pool.zone(k).offset(u // NS)), x, k)
    ctx.sample(f"{ks[a]} to each of {len(ks)} zone names")


PAIR_UTC = [cal.local_ns(*x) for x in ((2023, 7, 1, 12, 5), (2023, 1, 15, 23, 50), (2023, 10, 29, 0, 45), (1968, 7, 1, 12), (2030, 3, 31, 1, 15), (2011, 12, 30, 9, 59))]


def run_years(ctx, key, i, n):
    """the rule that ends the zone's data, in every year"""
    z = pool.zone(key)
    for y in range(2038 + i, 9999, n):
        for t, b, a in z.transitions_between(pool.s1(y), pool.s1(y + 1) - 1):
            d = abs(a - b)
            for u in (t * NS - 1, t * NS, t * NS + d * NS // 2, t * NS + d * NS - 1, t * NS + d * NS, t * NS - d * NS // 2):
                probe(ctx, z, u, full=False)
    ctx.sample(f"{key}: every {n}th year from {2038 + i}")


def run_offsets(ctx, i):
    us = pool.BOUNDARY_UTC + pool.EXTREME_UTC
    for u in us[i::4]:
        x = mkI(u)
        for off in pool.OFFSETS + [3600 * h for h in range(-23, 24)] + list(range(-100, 101, 7)):
            ctx.states += 1
            if not cal.in_range(u + off * NS):
                chk(ctx, o_off, RANGE, x, off)
                continue
            chk(ctx, o_off, eO(u, off), x, off)
            if off % 3600 == 0:
                chk(ctx, Op("x.to_fixed_offset(h)", "x h"), eO(u, off), x, off // 3600)
            y = mkO(u, off)
            loc = u + off * NS
            chk(ctx, Op("(y.instant(), y.to_fixed_offset(), y.local(), y.to_tz('UTC'), y.offset, y.date().at(y.time()), y.to_fixed_offset(0))", "y"),
                (eI(u), eO(u, off), eL(loc), eZ("UTC", u, 0), ("TD", off * NS), eL(loc), eO(u, 0)), y)
        chk(ctx, Op("x.to_fixed_offset()", "x"), eO(u, 0), x)
    for off in (86400, -86400, 10**6):
        chk(ctx, o_off, RANGE, mkI(us[0] + DAY_NS * 400), off)
    chk(ctx, Op("x.to_fixed_offset(TimeDelta(milliseconds=500))", "x"), RANGE, mkI(us[30]))
    chk(ctx, Op("x.to_fixed_offset(24)", "x"), RANGE, mkI(us[30]))
    ctx.sample(f"{us[i]} ns in every whole-hour offset and {len(pool.OFFSETS)} odd ones")


o_sys = Op("x.to_system_tz()", "x")
o_sforms = Op("(s.instant(), s.to_fixed_offset(), s.local(), s.date(), s.time(), s.to_system_tz(), s.to_tz('UTC'), s.to_fixed_offset(0), s.instant().to_system_tz())", "s")


def set_tz(k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"


def run_system(ctx, k):
    set_tz(k)
    z = pool.zone(k)
    tr = pool.recent(z, 1985)
    others = ["UTC", k, "Europe/London" if k == "Australia/Lord_Howe" else "Australia/Lord_Howe", "Europe/London" if k == "Atlantic/Azores" else "Atlantic/Azores", "America/New_York"]
    # moments at which the source, rather than the system zone, repeats an hour
    far = [u for q in others for t, b, a in pool.recent(pool.zone(q))[-2:] for u in (t * NS - 1, t * NS, t * NS + NS * abs(a - b) // 2, t * NS - NS * abs(a - b) // 2, t * NS + NS * abs(a - b) - 1)]
    for u in [*pool.edge_instants(z, tr), *far]:
        off = z.offset(u // NS)
        ctx.states += 1
        xs = [mkI(u), mkO(u, 0), mkO(u, off), mkO(u, -19800)] + [mkI(u).to_tz(q) for q in others]
        for x in xs:
            chk(ctx, o_sys, eS(u, off), x)
        s = mkS(u)
        x, n = divmod(u + off * NS, DAY_NS)
        chk(ctx, o_sforms, (eI(u), eO(u, off), eL(u + off * NS), ("D", *cal.civil(x)), ("T", n), eS(u, off), eZ("UTC", u, 0), eO(u, 0), eS(u, off)), s)
        for q in others:
            chk(ctx, o_tz, eZ(q, u, pool.zone(q).offset(u // NS)), s, q)
        chk(ctx, o_off, eO(u, 37800), s, 37800)
    ctx.sample(f"TZ={k}: to and from the system zone at {len(tr)} transitions")


def run_chain(ctx, key, which):
    """breadth-first search: every state has the instant it started with"""
    z = pool.zone(key)
    tr = [t for t in pool.recent(z)][-2:] or [(pool.s1(2023, 6), 0, 0)]
    t, b, a = tr[which % len(tr)]
    ks = key if which else pool.SYSTEM[pool.FEATURED.index(key) % len(pool.SYSTEM)]
    set_tz(ks)
    zs = pool.zone(ks)
    for u in (t * NS - 1, t * NS, (t - abs(a - b) // 2) * NS + 123):
        targets = [key] + pool.FEATURED
        start = eI(u)
        seen = {start}
        frontier = [(mkI(u), start)]
        for depth in range(3 if ctx.tier == "quick" else 4):
            nxt = []
            for x, vx in frontier:
                succ = [(o_tz, k, eZ(k, u, pool.zone(k).offset(u // NS))) for k in targets]
                succ += [(o_off, o, eO(u, o)) for o in pool.OFFSETS]
                succ.append((o_sys, None, eS(u, zs.offset(u // NS))))
                for op, arg, e in succ:
                    args = (x, arg) if arg is not None else (x,)
                    chk(ctx, op, e, *args)
                    if e not in seen:
                        seen.add(e)
                        nxt.append((op(*args), e))
                if vx[0] != "I":
                    chk(ctx, Op_inst, eI(u), x)
            frontier = nxt
        ctx.states += len(seen)
    ctx.sample(f"conversion chains from {key} around {t}: {len(seen)} reachable views, all one instant")


Op_inst = Op("x.instant()", "x")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
