from __future__ import annotations

import os
import time

from whenever import TimeDelta

from .. import cal, pool, synth, vals
from ..cal import DAY_NS, HOUR_NS, MIN_NS, NS
from ..vals import RANGE, TYPE, Op, chk, eI, eO, eS, eZ, mkI, mkO, mkS, mkTD

ID = "C09"
TITLE = "Exact-time arithmetic moves along the timeline, whatever the zone does"



def bounds(tier):
    return {
        "zones": "every real and synthetic zone: starts around each transition, steps chosen to land on every other edge, "
        "plus +-{1 ns, 1 s, 1 h, 24 h, 1 day+1 ns, 1e9 s}",
        "system": pool.system(tier),
        "far": f"from {len(FAR)} moments (instant, offset, zoned, system) to every {FAR_STEP[tier]}th day of the range, by hours and by nanoseconds, and back",
        "units": "each keyword, all combinations of three units, positional delta, + and -",
    }


def shards(tier):
    synth.install(tier)
    return [("real", c) for c in pool.chunk(pool.keys(), 48)] + [("synth", c) for c in pool.chunk(synth.specs(tier), 8)] + [
        ("system", k) for k in pool.system(tier)] + [("instant", i) for i in range(8)] + [("units", i) for i in range(4)] + [("far", i) for i in range(len(FAR))]


ADD = Op("x + d", "x d")
SUB = Op("x - d", "x d")
MADD = Op("x.add(d)", "x d")
MSUB = Op("x.subtract(d)", "x d")
KADD = Op("x.add(nanoseconds=n)", "x n")
KSUB = Op("x.subtract(nanoseconds=n)", "x n")
KHS = Op("x.add(hours=h, seconds=s, nanoseconds=n)", "x h s n")
BACK = Op("(x + d) - x", "x d")

STEPS = [1, -1, NS, -NS, HOUR_NS, -HOUR_NS, 24 * HOUR_NS, -24 * HOUR_NS, DAY_NS + 1, 10**18, -(10**18), 0]


def step(ctx, e, x, u, d, full):
    v = u + d
    exp = e(v)
    D = mkTD(d)
    chk(ctx, ADD, exp, x, D)
    chk(ctx, MSUB, exp, x, mkTD(-d))
    if full:
        chk(ctx, SUB, exp, x, mkTD(-d))
        chk(ctx, MADD, exp, x, D)
        chk(ctx, KADD, exp, x, d)
        chk(ctx, KSUB, exp, x, -d)
        h, r = divmod(d, HOUR_NS)
        s, n = divmod(r, NS)
        chk(ctx, KHS, exp, x, h, s, n)
        if type(exp) is tuple:
            chk(ctx, BACK, ("TD", d), x, D)


def zoned(z):
    def e(v):
        if not cal.in_range(v):
            return RANGE
        o = z.offset(v // NS)
        if not cal.in_range(v + o * NS):
            return RANGE
        return eZ(z.key, v, o)

    return e


def run_zone(ctx, z, tr, key):
    e = zoned(z)
    for j, (t, b, a) in enumerate(tr):
        d = abs(a - b) * NS
        T = t * NS
        recent = ctx.thorough or j >= len(tr) - 6
        pts = [T - d, T - 1, T, T + d, T + d // 2 + 7] if recent else [T - 1, T]
        for u in pts:
            if type(e(u)) is not tuple:
                continue
            x = mkI(u).to_tz(key)
            ctx.states += 1
            for s in (STEPS if recent else STEPS[:6:3]):
                step(ctx, e, x, u, s, recent and u == T - 1)
            for v in pts + [T - d - 1, T + d + 1]:
                step(ctx, e, x, u, v - u, False)


def run_real(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z)
        run_zone(ctx, z, tr, k)
        e = zoned(z)
        for u in pool.EXTREME_UTC + pool.BOUNDARY_UTC[::8]:
            if type(e(u)) is not tuple:
                continue
            x = mkI(u).to_tz(k)
            ctx.states += 1
            for v in pool.EXTREME_UTC + [-1, cal.LOCAL_MAX + 1] + pool.BOUNDARY_UTC[::16]:
                step(ctx, e, x, u, v - u, u in (0, cal.LOCAL_MAX))
    ctx.sample(f"{k}: steps between all edges of {len(tr)} transitions")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        run_zone(ctx, z, z.transitions_between(pool.s1(1960), pool.s1(2026))[-4:], z.key)
    ctx.sample(f"synthetic {sp}")


def run_system(ctx, k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    z = pool.zone(k)

    def e(v):
        if not cal.in_range(v):
            return RANGE
        o = z.offset(v // NS)
        return eS(v, o) if cal.in_range(v + o * NS) else RANGE

    for t, b, a in pool.recent(z, 1970):
        d = abs(a - b) * NS
        T = t * NS
        for u in (T - d, T - 1, T, T + d):
            x = mkS(u)
            ctx.states += 1
            for s in STEPS + [d, -d, d - 1]:
                step(ctx, e, x, u, s, u == T)
    ctx.sample(f"SystemDateTime under TZ={k}")


def run_instant(ctx, i):
    us = pool.BOUNDARY_UTC + pool.EXTREME_UTC

    def e(v):
        return eI(v) if cal.in_range(v) else RANGE

    for u in us[i::8]:
        x = mkI(u)
        for v in us + [-1, -DAY_NS, cal.LOCAL_MAX + 1, cal.LOCAL_MAX + DAY_NS]:
            ctx.states += 1
            d = v - u
            step_instant(ctx, e, x, u, d)
            if cal.in_range(v):
                chk(ctx, Op_diff, ("TD", d), mkI(v), x)
        for s in STEPS:
            step_instant(ctx, e, x, u, s)
    ctx.sample(f"Instant {us[i]} ns: steps to every other boundary instant and just out of range")


Op_diff = Op("(a - b)", "a b")


def step_instant(ctx, e, x, u, d):
    exp = e(u + d)
    chk(ctx, ADD, exp, x, mkTD(d))
    chk(ctx, SUB, exp, x, mkTD(-d))
    chk(ctx, KADD, exp, x, d)
    chk(ctx, KSUB, exp, x, -d)
    h, r = divmod(d, HOUR_NS)
    s, n = divmod(r, NS)
    chk(ctx, KHS, exp, x, h, s, n)


FIELDS = [("hours", HOUR_NS), ("minutes", MIN_NS), ("seconds", NS), ("milliseconds", 10**6), ("microseconds", 1000), ("nanoseconds", 1)]


def run_units(ctx, i):
    z = pool.zone("Europe/Amsterdam")
    us = [cal.local_ns(2023, 3, 26, 0, 59, 59, 999_999_999), cal.local_ns(2023, 10, 29, 0, 30), cal.local_ns(1969, 12, 31, 23, 59, 59, 1), cal.local_ns(2024, 2, 29)]
    u = us[i]
    subjects = [(mkI(u), lambda v: eI(v)), (mkI(u).to_tz("Europe/Amsterdam"), zoned(z))]
    amounts = [0, 1, -1, 25, -61, 1001]
    for a, (f1, m1) in enumerate(FIELDS):
        for b in range(a + 1, 6):
            f2, m2 = FIELDS[b]
            for c in range(b + 1, 6):
                f3, m3 = FIELDS[c]
                for p in amounts:
                    for q in amounts:
                        for r in amounts[1:4]:
                            d = p * m1 + q * m2 + r * m3
                            kw = {f1: p, f2: q, f3: r}
                            ctx.states += 1
                            for x, e in subjects:
                                chk(ctx, KW_ADD, e(u + d), x, kw)
                                chk(ctx, KW_SUB, e(u - d), x, kw)
    for f, m in FIELDS[:-1]:
        for v in (0.5, -0.25, 1.5, 3.0, 0.125):
            for x, e in subjects:
                chk(ctx, KW_ADD, e(u + int(v * m)), x, {f: v})
                chk(ctx, KW_SUB, e(u - int(v * m)), x, {f: v})
    for x, e in subjects:
        chk(ctx, Op("x.add()", "x"), e(u), x)
        chk(ctx, Op("x.subtract()", "x"), e(u), x)
        for bad in ("x + 3", "x - 3", "x + x", "3 + x", "x.add(foo=3)"):
            chk(ctx, Op(bad, "x"), TYPE, x)
    chk(ctx, Op("x.add(TimeDelta(hours=1), hours=1)", "x"), TYPE, subjects[1][0])
    for bad in ("x + DateDelta(days=1)", "x - DateDelta(days=1)", "x + DateTimeDelta(days=1)", "x.add(days=1)", "x.subtract(months=1)", "x.add(years=1)"):
        chk(ctx, Op(bad, "x"), TYPE, subjects[0][0])
    ctx.sample("add/subtract with every triple of units, amounts " + str(amounts))


FAR = [(None, (1970, 1, 1)), (None, (1, 1, 1, 0, 0, 0, 1)), (None, (9999, 12, 31, 23)), ("Europe/Paris", (2023, 10, 29, 0, 30)), ("Europe/Paris", (1, 1, 2)),
       ("Australia/Lord_Howe", (2000, 2, 29, 15, 30)), ("America/New_York", (9999, 12, 30)), ("Asia/Kolkata", (1899, 12, 31, 23, 59, 59, 999_999_999)),
       ("Africa/Monrovia", (1971, 12, 31, 23)), ("UTC", (2019, 6, 30)), ("system", (2023, 3, 26, 1)), ("system", (1901, 12, 13)), (3600, (2023, 1, 1)), (-86399, (1970, 1, 1))]
FAR_STEP = {"quick": 301, "thorough": 11}
FAR_H = Op("x.add(hours=h, **kw)", "x h kw")
FAR_M = Op("x.add(**by, **kw)", "x by kw")
FAR_N = Op("x.subtract(nanoseconds=n, **kw)", "x n kw")
FAR_B = Op("x.add(hours=h, **kw) - x", "x h kw")


def run_far(ctx, i):
    """every distance"""
    key, f = FAR[i]
    u = cal.local_ns(*f)
    kw = {}
    if key is None:
        x, e = mkI(u), lambda v: eI(v) if cal.in_range(v) else RANGE
    elif type(key) is int:
        x, e = mkO(u, key), lambda v: eO(v, key) if cal.in_range(v) and cal.in_range(v + key * NS) else RANGE
        kw = {"ignore_dst": True}
    elif key == "system":
        os.environ["TZ"] = "Europe/Paris"
        time.tzset()
        vals.EXTRA_SETUP = "os.environ['TZ'] = 'Europe/Paris'; time.tzset()"
        z = pool.zone("Europe/Paris")
        x, e = mkS(u), lambda v: eS(v, z.offset(v // NS))
    else:
        x, e = mkI(u).to_tz(key), zoned(pool.zone(key))
    step = FAR_STEP[ctx.tier]
    d0 = u // cal.DAY_NS
    for n in range(i % step + 3, cal.NDAYS - 3, step):
        h = 24 * (n - d0) + n % 24
        ctx.states += 1
        exp = e(u + h * HOUR_NS)
        chk(ctx, FAR_H, exp, x, h, kw)
        if n % 2:
            m = (n * 31 % 120 - 60) * (n // 8 % 2)
            s = (n * 17 % 90 - 45) * (n // 4 % 2)
            chk(ctx, FAR_M, e(u + h * HOUR_NS + m * MIN_NS + s * NS), x, {f: v for f, v in (("hours", h), ("minutes", m), ("seconds", s)) if v}, kw)
        chk(ctx, FAR_N, exp, x, -h * HOUR_NS, kw)
        chk(ctx, FAR_B, ("TD", h * HOUR_NS), x, h, kw)
    ctx.sample(f"{x} + hours to every {step}th day")


KW_ADD = Op("x.add(**kw)", "x kw")
KW_SUB = Op("x.subtract(**kw)", "x kw")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
