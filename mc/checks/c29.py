from __future__ import annotations

from .. import clock  # first: replaces the process clock

import os
import time

from .. import cal, pool, tzmodel, vals
from ..cal import DAY_NS, EPOCH_NS, NS
from ..vals import Err, Op, chk, eI, eO, eS, eZ
from . import c27

ID = "C29"
TITLE = "The current time is the clock's time, exactly, in every type"

RANGE = Err(ValueError, OverflowError, OSError)
OFFS = c27.OFFS


def bounds(tier):
    return {
        "clock": f"{len(c27.moments(tier))} readings for all types (epoch neighbourhood, powers of two, transitions, range edges, dates over all years); "
        "9 readings around each transition of each zone",
        "types": "instant, 8 offsets (as hours and as durations), zones, system zone and today's date under each system zone",
        "zones": f"{len(pool.keys())}: all transitions 1970-2037" if tier == "thorough" else f"{len(pool.keys())}: last 3 transitions of each kind; featured zones as system zones at all transitions 1970-2037",
    }


def shards(tier):
    return [("moments", i) for i in range(8)] + [("zones", c) for c in pool.chunk(pool.keys(), 32)] + [("system", k) for k in pool.FEATURED] + [("outside",)]


vals.PRE_SETUP = "from mc import clock"
N_I = Op("Instant.now()", "")
N_O = Op("OffsetDateTime.now(TimeDelta(seconds=o), ignore_dst=True)", "o")
N_OH = Op("OffsetDateTime.now(h, ignore_dst=True)", "h")
N_Z = Op("ZonedDateTime.now(k)", "k")
N_S = Op("SystemDateTime.now()", "")
TODAY = Op("Date.today_in_system_tz()", "")
SEQ = Op("(Instant.now(), ZonedDateTime.now('UTC'), Instant.now())", "")


def at(ctx, u):
    clock.set(u - EPOCH_NS)
    ctx.states += 1
    tz = os.environ.get("TZ", "UTC")
    vals.EXTRA_SETUP = f"clock.set({u - EPOCH_NS}); os.environ['TZ'] = {tz!r}; time.tzset()"


def zexp(z, u):
    o = z.offset(u // NS)
    return eZ(z.key, u, o) if cal.in_range(u + o * NS) else RANGE


def run_moments(ctx, i):
    ms = c27.moments(ctx.tier)
    for u in ms[i::8]:
        at(ctx, u)
        chk(ctx, N_I, eI(u))
        chk(ctx, SEQ, (eI(u), eZ("UTC", u, 0), eI(u)))
        for o in OFFS:
            e = eO(u, o) if cal.in_range(u + o * NS) else RANGE
            chk(ctx, N_O, e, o)
            if o % 3600 == 0:
                chk(ctx, N_OH, e, o // 3600)
        for k in c27.ZN:
            chk(ctx, N_Z, zexp(pool.zone(k), u), k)
        chk(ctx, N_S, eS(u, 0))
        chk(ctx, TODAY, ("D", *cal.civil(u // DAY_NS)))
    ctx.sample(f"clock at {u - EPOCH_NS} ns: all types")


def run_zones(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.recent(z, 1970, 2037)
        if not ctx.thorough:
            seen = {}
            keep = []
            for t in reversed(tr):
                if seen.setdefault(t[1:], 0) < 3:
                    seen[t[1:]] += 1
                    keep.append(t)
            tr = keep
        for u in pool.edge_instants(z, tr):
            at(ctx, u)
            chk(ctx, N_Z, zexp(z, u), k)
    ctx.sample(f"{k}: clock around {len(tr)} transitions")


def run_system(ctx, k):
    if not os.path.exists(os.path.join(tzmodel.ZONEINFO, k)):
        return
    os.environ["TZ"] = k
    time.tzset()
    z = pool.zone(k)
    us = set(pool.edge_instants(z, pool.recent(z, 1970, 2037)))
    for d in range(cal.days(2010, 12, 1), cal.days(2012, 2, 1)):  # around every local midnight
        for tod in (-1, 0):
            for s in z.solve((d * DAY_NS) // NS)[1] if z.solve(d * 86400)[0] == "ok" else ():
                us.add(s * NS + tod)
    for u in sorted(us):
        at(ctx, u)
        o = z.offset(u // NS)
        if time.localtime(u // NS - cal.EPOCH_S).tm_gmtoff != o:
            ctx.outcomes["libc disagrees with the tz data (skipped)"] += 1
            continue
        chk(ctx, N_S, eS(u, o))
        chk(ctx, TODAY, ("D", *cal.civil((u + o * NS) // DAY_NS)))
    ctx.sample(f"system zone {k}: {len(us)} clock readings")


def run_outside(ctx):
    for u in (-1, -NS, -DAY_NS, cal.LOCAL_MAX + 1, cal.LOCAL_MAX + NS, cal.LOCAL_MAX + DAY_NS):
        at(ctx, u)
        chk(ctx, N_I, RANGE)
        chk(ctx, N_S, RANGE)
        chk(ctx, TODAY, RANGE)
        for o in OFFS:
            chk(ctx, N_O, RANGE, o)
        for k in c27.ZN:
            chk(ctx, N_Z, RANGE, k)
    ctx.sample("clock outside the range")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    os.environ["TZ"] = "UTC"
    time.tzset()
    try:
        globals()["run_" + kind](ctx, *a)
    finally:
        clock.set(None)
