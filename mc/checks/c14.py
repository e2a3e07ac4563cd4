from __future__ import annotations

import os
import time

from whenever import ZonedDateTime

from .. import cal, pool, synth, vals
from ..cal import DAY_NS, HOUR_NS, INCREMENTS, MODES, NS, UNIT_NS, round_int
from ..vals import RANGE, VALUE, Op, chk, eS, eZ, mkI, mkS
from .c10 import Sub

ID = "C14"
TITLE = "Zoned and system rounding, day starts and day lengths follow the actual day"

UNITS = [(u, i) for u in UNIT_NS for i in INCREMENTS[u]]
COARSE = [("hour", i) for i in INCREMENTS["hour"]] + [("minute", i) for i in (1, 15, 30, 60)] + [("second", 1), ("second", 30)]


def bounds(tier):
    return {
        "zones": "every real zone (all transitions through 2100), every synthetic zone, system zones " + str(pool.system(tier)),
        "days": "the day before, of and after each transition: start_of_day, day_length, round('day') in 5 modes from 6 times of day",
        "increments": "hour/minute/second increments " + str(COARSE) + " x 5 modes around the last transitions; every legal increment on one fold per featured zone",
    }


def shards(tier):
    synth.install(tier)
    return [("real", c) for c in pool.chunk(pool.keys(), 64)] + [("synth", c) for c in pool.chunk(synth.specs(tier), 12)] + [
        ("system", k) for k in pool.system(tier)] + [("incs", k) for k in pool.FEATURED]


SOD = Op("x.start_of_day()", "x")
LEN = Op("x.day_length()", "x")
ROUND = Op("x.round(unit, increment=inc, mode=mode)", "x unit inc mode")
ROUND0 = Op("x.round(unit, inc)", "x unit inc")
ROUNDM = Op("x.round(unit, mode=mode)", "x unit mode")
ROUNDD = Op("x.round()", "x")


def day(sub, u, off):
    """(start of day, start of next day) as utc"""
    n = (u + off * NS) // DAY_NS
    a = sub.resolve(n * DAY_NS, "compatible", 0)
    b = sub.resolve((n + 1) * DAY_NS, "compatible", 0)
    return a, b


def day_checks(ctx, sub, u):
    if not cal.in_range(u):
        return
    off = sub.z.offset(u // NS)
    local = u + off * NS
    if not cal.in_range(local):
        return
    x = sub.mk(u)
    a, b = day(sub, u, off)
    ctx.states += 1
    if type(a) is int and type(sub.exp(a)) is tuple:
        chk(ctx, SOD, sub.exp(a), x)
        if not (sub.z.solve(local // DAY_NS * DAY_NS // NS)[0] == "ok"):
            ctx.outcomes["midnight skipped"] += 1
    else:
        chk(ctx, SOD, RANGE, x)
        return
    if type(b) is int and cal.in_range(b):
        length = b - a
        chk(ctx, LEN, ("TD", length), x)
        if length != DAY_NS:
            ctx.outcomes["irregular day"] += 1
        nb = sub.exp(b)
        sa = sub.exp(a)
        tod = local % DAY_NS
        for mode in MODES:
            if mode == "floor":
                e = sa
            elif mode == "ceil":
                e = sa if u == a else nb
            elif mode == "half_ceil":
                e = nb if 2 * tod >= length else sa
            else:
                e = nb if 2 * tod > length else sa
            chk(ctx, ROUND, e, x, "day", 1, mode)


def round_checks(ctx, sub, u, units):
    if not cal.in_range(u):
        return
    off = sub.z.offset(u // NS)
    local = u + off * NS
    if not (cal.in_range(local - DAY_NS) and cal.in_range(local + DAY_NS)):
        return
    x = sub.mk(u)
    n, tod = divmod(local, DAY_NS)
    ctx.states += 1
    for unit, i in units:
        inc = UNIT_NS[unit] * i
        for mode in MODES:
            r = n * DAY_NS + round_int(tod, inc, mode)
            chk(ctx, ROUND, sub.to(r, None, off), x, unit, i, mode)
        chk(ctx, ROUND0, sub.to(n * DAY_NS + round_int(tod, inc, "half_even"), None, off), x, unit, i)
    r = sub.to(n * DAY_NS + round_int(tod, NS, "half_even"), None, off)
    chk(ctx, ROUNDD, r, x)
    chk(ctx, ROUNDM, sub.to(n * DAY_NS + round_int(tod, HOUR_NS, "ceil"), None, off), x, "hour", "ceil")


def run_zone(ctx, sub, tr, nfull):
    for j, (t, b, a) in enumerate(tr):
        T, d = t * NS, abs(a - b) * NS
        # the local day of the transition and its neighbours
        for k in (-1, 0, 1):
            for tod in (0, 1, 6 * HOUR_NS, 12 * HOUR_NS - d // 2 - 1, 12 * HOUR_NS - d // 2, 12 * HOUR_NS, 12 * HOUR_NS + d // 2, 24 * HOUR_NS - 1) if ctx.thorough or k == 0 and j >= len(tr) - 30 else (6 * HOUR_NS,):
                n = (T + b * NS) // DAY_NS + k
                for s in (sub.z.solve((n * DAY_NS + tod) // NS) if cal.in_range(n * DAY_NS + tod) else ("", ()))[1] or ():
                    u = s * NS + tod % NS
                    if sub.z.solve((n * DAY_NS + tod) // NS)[0] == "ok":
                        day_checks(ctx, sub, u)
        for u in (T - 1, T, T - d, T + d // 2):
            day_checks(ctx, sub, u)
        if ctx.thorough or j >= len(tr) - nfull:
            for u in (T - d - 1, T - d // 2 - 1, T - d // 3, T - NS // 2, T - 1, T, T + 1, T + d // 2 + 1, T + d - 1, T - HOUR_NS // 2, T - HOUR_NS // 2 - d,
                      T + HOUR_NS // 2, T - 12 * HOUR_NS - 5):
                round_checks(ctx, sub, u, COARSE)


def run_real(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z, far=False)
        sub = Sub(z, False)
        run_zone(ctx, sub, tr, 3)
        for u in pool.EXTREME_UTC + pool.BOUNDARY_UTC[::7]:
            day_checks(ctx, sub, u)
    ctx.sample(f"{k}: days around {len(tr)} transitions")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        run_zone(ctx, Sub(z, False), z.transitions_between(pool.s1(1960), pool.s1(2026))[-2:], 1)
    ctx.sample(f"synthetic {sp}")


def run_system(ctx, k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    z = pool.zone(k)
    run_zone(ctx, Sub(z, True), pool.recent(z, 1985), 6)
    ctx.sample(f"SystemDateTime under TZ={k}")


def run_incs(ctx, k):
    z = pool.zone(k)
    sub = Sub(z, False)
    for t, b, a in (pool.recent(z)[-2:] or [(pool.s1(2023, 3, 26), 0, 0)]):
        T, d = t * NS, abs(a - b) * NS
        for u in (T - 1, T, T - d // 2 - 123456789, T + d // 2 + 987654321):
            round_checks(ctx, sub, u, UNITS)
        x = sub.mk(T)
        for unit in UNIT_NS:
            for i in (0, -1, 7, 11, 13, 1001, 10**9):
                chk(ctx, ROUND, VALUE, x, unit, i, "floor")
        for i in (0, 2, -1, 24):
            chk(ctx, ROUND, VALUE, x, "day", i, "floor")
        for u, m in (("week", "floor"), ("", "floor"), ("hour", "up"), ("day", "down"), ("second", "")):
            chk(ctx, ROUND, VALUE, x, u, 1, m)
    ctx.sample(f"{k}: all {len(UNITS)} legal increments x 5 modes around the last two transitions")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
