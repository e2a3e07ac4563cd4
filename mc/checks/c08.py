from __future__ import annotations

from whenever import Date, LocalDateTime, Time, ZonedDateTime

from .. import cal, pool, synth, tzmodel, vals
from ..cal import DAY_NS, NS
from . import c07
from ..tzmodel import Repeated, Skipped
from ..vals import RANGE, REPEATED, SKIPPED, VALUE, Op, chk, eZ, mkI, mkL, mkT

ID = "C08"
TITLE = "Local times in gaps and folds resolve as the disambiguation mode says"

MODES = ("compatible", "earlier", "later", "raise")


def bounds(tier):
    return {
        "zones": f"{len(pool.keys())} real zones + {len(synth.specs(tier))} synthetic zones (every ordered pair of {len(synth.OFFS)} offsets)",
        "transitions": "all through 2100 and of " + str(pool.FAR_YEARS),
        "probes": "8 local times around each gap/fold x 4 modes + default, for constructor and assume_tz; "
        "replace, replace_date, replace_time, replace(tz), add/subtract with explicit mode at the edges",
        "years": "2 local times (the middle, and the first, just before it or the last) at each transition of the rules that go on for ever, of the years C07 takes",
        "ambiguity": "is_ambiguous for every resolved value",
    }


def shards(tier):
    synth.install(tier)
    sp = synth.specs(tier)
    return [("real", c) for c in pool.chunk(pool.keys(), 64)] + [("synth", c) for c in pool.chunk(sp, 16)] + c07.years(tier) + [("bad",)]


CTOR = Op("ZonedDateTime(y, mo, d, h, mi, s, nanosecond=ns, tz=tz, disambiguate=mode)", "y mo d h mi s ns tz mode")
CTOR0 = Op("ZonedDateTime(y, mo, d, h, mi, s, nanosecond=ns, tz=tz)", "y mo d h mi s ns tz")
ASSUME = Op("x.assume_tz(tz, disambiguate=mode)", "x tz mode")
ASSUME0 = Op("x.assume_tz(tz)", "x tz")
ASSUMEP = Op("x.assume_tz(tz, mode)", "x tz mode")
AMB = Op("z.is_ambiguous()", "z")
REPL = Op("z.replace(year=y, month=mo, day=d, hour=h, minute=mi, second=s, nanosecond=ns, disambiguate=mode)", "z y mo d h mi s ns mode")
REPL_D = Op("z.replace_date(Date(y, mo, d), disambiguate=mode)", "z y mo d mode")
REPL_T = Op("z.replace_time(t, disambiguate=mode)", "z t mode")
REPL_TZ = Op("z.replace(tz=tz, disambiguate=mode)", "z tz mode")
REPL_TZ0 = Op("z.replace(tz=tz)", "z tz")
ADD = Op("z.add(days=n, disambiguate=mode)", "z n mode")
SUB = Op("z.subtract(days=n, disambiguate=mode)", "z n mode")
ADDD = Op("z.add(DateDelta(days=n), disambiguate=mode)", "z n mode")


def expect(z, local, mode):
    sub = local % NS
    try:
        u = z.resolve(local // NS, mode) * NS + sub
    except Skipped:
        return SKIPPED
    except Repeated:
        return REPEATED
    if not cal.in_range(u):
        return RANGE
    return eZ(z.key, u, z.offset(u // NS))


def probe(ctx, z, local, deep):
    if not cal.in_range(local):
        return
    f = cal.fields(local)
    x = mkL(local)
    ctx.states += 1
    kind, sol = z.solve(local // NS)
    ctx.outcomes[kind + (str(len(sol)) if kind == "ok" else "")] += 1
    for mode in MODES:
        e = expect(z, local, mode)
        chk(ctx, CTOR, e, *f, z.key, mode)
        chk(ctx, ASSUME, e, x, z.key, mode)
    e = expect(z, local, "compatible")
    chk(ctx, CTOR0, e, *f, z.key)
    chk(ctx, ASSUME0, e, x, z.key)
    if type(e) is not tuple:
        return
    for u in [s * NS + local % NS for s in sol] if kind == "ok" else [e[-1]]:
        o = z.offset(u // NS)
        lo = u + o * NS
        amb = z.solve(lo // NS)
        chk(ctx, AMB, amb[0] == "ok" and len(amb[1]) > 1, mkI(u).to_tz(z.key))
    if not deep:
        return
    # other ways to arrive at the same local time
    y, mo, d, h, mi, s, ns = f
    base = local - 3 * DAY_NS
    if not cal.in_range(base - DAY_NS):
        return
    others = []
    for b in (local - 2 * DAY_NS, local + 2 * DAY_NS):
        if cal.in_range(b) and cal.in_range(b + 2 * DAY_NS):
            eb = expect(z, b, "compatible")
            if type(eb) is tuple and eb[2] == b:
                others.append((b, mkI(eb[-1]).to_tz(z.key)))
    # the day itself, at noon of the same day
    for tod in (12 * 3600 * NS, 0):
        b = local - local % DAY_NS + tod
        eb = expect(z, b, "compatible")
        if type(eb) is tuple and eb[2] == b:
            chk_all(ctx, z, local, f, b, mkI(eb[-1]).to_tz(z.key), True)
    for b, zb in others:
        chk_all(ctx, z, local, f, b, zb, False)
    # from another zone
    for other in ("UTC", "Asia/Kathmandu"):
        oz = pool.zone(other)
        eb = expect(oz, local, "compatible")
        if type(eb) is tuple and eb[2] == local and other != z.key:
            zo = mkI(eb[-1]).to_tz(other)
            for mode in MODES:
                chk(ctx, REPL_TZ, expect(z, local, mode), zo, z.key, mode)
            chk(ctx, REPL_TZ0, expect(z, local, "compatible"), zo, z.key)


def chk_all(ctx, z, local, f, b, zb, same_day):
    y, mo, d, h, mi, s, ns = f
    n = local // DAY_NS - b // DAY_NS
    for mode in MODES:
        e = expect(z, local, mode)
        chk(ctx, REPL, e, zb, *f, mode)
        if same_day:
            chk(ctx, REPL_T, e, zb, mkT(local % DAY_NS), mode)
        else:
            chk(ctx, REPL_D, e, zb, y, mo, d, mode)
            chk(ctx, ADD, e, zb, n, mode)
            chk(ctx, SUB, e, zb, -n, mode)
            chk(ctx, ADDD, e, zb, n, mode)


def run_zone(ctx, z, tr):
    seen = set()
    for j, t in enumerate(tr):
        for i, local in enumerate(pool.edge_locals(z, [t])):
            if local in seen:
                continue
            seen.add(local)
            deep = ctx.thorough or (i in (2, 4, 5, 6) and j >= len(tr) - 6)
            probe(ctx, z, local, deep)


def run_real(ctx, ks):
    for key in ks:
        z = pool.zone(key)
        tr = pool.transitions(z)
        run_zone(ctx, z, tr)
        for u in pool.BOUNDARY_UTC[::3] + pool.EXTREME_UTC:
            probe(ctx, z, u, False)
        for local in (cal.local_ns(2023, 6, 1, 12), cal.local_ns(1999, 12, 31, 23, 59, 59, 999_999_999)):
            probe(ctx, z, local, True)
    ctx.sample(f"{key}: {len(tr)} transitions x 8 local times x 4 modes x constructor, assume_tz, ...")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        tr = z.transitions_between(pool.s1(1960), pool.s1(2027))
        run_zone(ctx, z, tr[-8:])
    ctx.sample(f"synthetic zone {sp}")


def run_years(ctx, key, i, n):
    """the rule that ends the zone's data, in every year"""
    z = pool.zone(key)
    for y in range(2038 + i, 9999, n):
        for t in z.transitions_between(pool.s1(y), pool.s1(y + 1) - 1):
            for j in (4, (0, 2, 6)[y % 3]):
                probe(ctx, z, [*pool.edge_locals(z, [t])][j], False)
    ctx.sample(f"{key}: every {n}th year from {2038 + i}")


def run_bad(ctx):
    for mode in ("", "RAISE", "first", "Compatible", "latest", "x", "0"):
        chk(ctx, CTOR, VALUE, 2020, 1, 1, 0, 0, 0, 0, "UTC", mode)
        chk(ctx, ASSUME, VALUE, LocalDateTime(2020, 1, 1), "UTC", mode)
    ctx.states += 8
    for a in ((0, 1, 1, 0, 0, 0, 0), (10000, 1, 1, 0, 0, 0, 0), (2023, 2, 29, 0, 0, 0, 0), (2023, 1, 1, 24, 0, 0, 0), (2023, 1, 1, 0, 60, 0, 0),
              (2023, 1, 1, 0, 0, 60, 0), (2023, 1, 1, 0, 0, 0, NS), (2023, 1, 1, 0, 0, 0, -1), (2023, 13, 1, 0, 0, 0, 0)):
        for k in pool.FEATURED:
            ctx.states += 1
            chk(ctx, CTOR0, VALUE, *a, k)


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
