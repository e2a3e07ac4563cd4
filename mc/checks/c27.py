from __future__ import annotations

import itertools
import math
import os
import time
from fractions import Fraction

from .. import cal, pool, vals
from ..cal import DAY_NS, EPOCH_NS, LOCAL_MAX, NS
from ..vals import TYPE, Err, Op, chk, eI, eO, eS, eZ, mkI, mkO, mkS, report, view

ID = "C27"
TITLE = "Timestamps map one-to-one to moments, in every unit and sign"

# the platform's time functions may also give OSError
RANGE = Err(ValueError, OverflowError, OSError)
UNITS = {"timestamp": NS, "timestamp_millis": 10**6, "timestamp_nanos": 1}
ZN = ["UTC", "Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Africa/Monrovia", "Asia/Kathmandu", "Pacific/Apia"]
OFFS = [0, 3600, -5 * 3600, 20700, 1, -1, 86399, -86399]
SYS = ["UTC", "Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe"]


def moments(tier):
    us = set(pool.BOUNDARY_UTC) | set(pool.EXTREME_UTC)
    for k in ZN:
        for t, b, a in [*pool.recent(pool.zone(k))[-3:], *pool.transitions(pool.zone(k), far=False)[:6]]:
            us |= set(pool.edge_instants(None, [(t, b, a)]))
    # around the epoch: all combinations of whole part and sub-second digits
    for s in (-10**10, -86401, -86400, -1001, -1000, -2, -1, 0, 1, 2, 999, 1000, 86399, 86400, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**32, 2**33, 10**10):
        for f in (0, 1, 999, 1000, 1001, 999_999, 10**6, 10**6 + 1, 5 * 10**8, 10**9 - 10**6 - 1, 10**9 - 10**6, 10**9 - 1000, 10**9 - 1):
            us.add(EPOCH_NS + s * NS + f)
    n = 2500 if tier == "quick" else 9999
    for i in range(n):  # a moment in every year (or every 25th)
        y = 1 + i * 9999 // n
        us.add(cal.local_ns(y, 1 + i % 12, 1 + i % 28, i % 24, i % 60, (i * 7) % 60) + (i * 123_456_789) % NS)
    return sorted(u for u in us if cal.in_range(u))


def bounds(tier):
    return {"moments": f"{len(moments(tier))}: epoch neighbourhood in every unit, powers of two, transitions, range edges, dates over all years",
            "types": f"instant, {len(OFFS)} offsets, {len(ZN)} zones, system zones {SYS}",
            "floats": "neighbours (by ulp) of 0, +-1, +-0.5, 2**31, 2**33, range ends; sub-nanosecond magnitudes; not-finite values",
            "errors": "one unit outside the range to 10**40 in both directions"}


def shards(tier):
    return [("tostamp", i) for i in range(16)] + [("system", k) for k in SYS] + [("floats", i) for i in range(8)] + [("errors",)] + [("dense", i) for i in range(8)]


TO = {u: Op(f"x.{u}()", "x") for u in UNITS}
F_I = {u: Op(f"Instant.from_{u}(n)", "n") for u in UNITS}
F_O = {u: Op(f"OffsetDateTime.from_{u}(n, offset=TimeDelta(seconds=o), ignore_dst=True)", "n o") for u in UNITS}
F_Z = {u: Op(f"ZonedDateTime.from_{u}(n, tz=k)", "n k") for u in UNITS}
F_S = {u: Op(f"SystemDateTime.from_{u}(n)", "n") for u in UNITS}


def zexp(k, u):
    if not cal.in_range(u):
        return RANGE
    o = pool.zone(k).offset(u // NS)
    return eZ(k, u, o) if cal.in_range(u + o * NS) else RANGE


def oexp(o, u):
    return eO(u, o) if cal.in_range(u) and cal.in_range(u + o * NS) else RANGE


def run_tostamp(ctx, i):
    for u in moments(ctx.tier)[i::16]:
        xs = [mkI(u)] + [mkO(u, o) for o in OFFS if cal.in_range(u + o * NS)] + [mkI(u).to_tz(k) for k in ZN if type(zexp(k, u)) is tuple]
        for name, unit in UNITS.items():
            n = (u - EPOCH_NS) // unit
            back = n * unit + EPOCH_NS
            for x in xs:
                ctx.states += 1
                chk(ctx, TO[name], n, x)
            chk(ctx, F_I[name], eI(back), n)
            for o in OFFS:
                chk(ctx, F_O[name], oexp(o, back), n, o)
            for k in ZN:
                chk(ctx, F_Z[name], zexp(k, back), n, k)
    ctx.sample(f"{xs[0]}: every type and unit")


def run_dense(ctx, i):
    """every nanosecond / millisecond / second in small windows"""
    w = 2000 if ctx.tier == "quick" else 20000
    for name, unit in UNITS.items():
        centers = [0, NS // unit, -(NS // unit), 10**12, -10**12, 10**9 * (NS // unit)]
        for c in centers:
            for n in range(c - w + i, c + w, 8):
                u = n * unit + EPOCH_NS
                if not cal.in_range(u):
                    continue
                ctx.states += 1
                chk(ctx, F_I[name], eI(u), n)
                x = mkI(u)
                for nm, un in UNITS.items():
                    chk(ctx, TO[nm], (u - EPOCH_NS) // un, x)
    ctx.sample(f"{w * 2} consecutive values of each unit around 6 centers")


def run_system(ctx, k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    z = pool.zone(k)
    for u in moments(ctx.tier):
        if not (cal.local_ns(1970, 1, 1) <= u < cal.local_ns(2037, 1, 1)) and not (k == "UTC"):
            s = u // NS
            try:
                if time.localtime(s - cal.EPOCH_S).tm_gmtoff != z.offset(s):
                    continue
            except (ValueError, OverflowError, OSError):
                continue
        for name, unit in UNITS.items():
            n = (u - EPOCH_NS) // unit
            back = n * unit + EPOCH_NS
            o = z.offset(back // NS)
            ctx.states += 1
            if cal.in_range(back) and cal.in_range(back + o * NS) and cal.in_range(back - DAY_NS) and cal.in_range(back + DAY_NS):
                chk(ctx, F_S[name], eS(back, o), n)
                chk(ctx, TO[name], (u - EPOCH_NS) // unit, mkS(u))
    ctx.sample(f"SystemDateTime, TZ={k}")


def floats():
    out = set()
    lo, hi = -EPOCH_NS // NS, (LOCAL_MAX - EPOCH_NS) // NS
    for c in [0.0, 1.0, 0.5, 0.1, 1.1, 0.25, 1e-9, 1.5e-9, 0.5e-9, 1e-10, 5e-324, 1e-300, 0.999999999, 0.9999999999, 1e9, 1e9 + 0.123456789, 1.7e9 + 0.3, 86400.0, 2.0**31, 2.0**31 - 0.5,
              2.0**33, 2.0**22 + 0.000001, 123456.789, 62135596799.5, 1e10 + 0.25, float(hi), float(hi) - 0.5, 253402300799.0]:
        for s in (1, -1):
            x = s * c
            out.add(x)
            for d in (math.inf, -math.inf):
                y = x
                for _ in range(4):
                    y = math.nextafter(y, d)
                    out.add(y)
    for i in range(-300, 300):
        out.add(i / 7)
        out.add(i * 1e8 / 3)
        out.add(i * 1e-9 / 3)
    return sorted(out)


def run_floats(ctx, i):
    """within one nanosecond of the exact value of the float, never on another second for whole values"""
    for f in floats()[i::8]:
        exact = Fraction(f) * NS + EPOCH_NS
        inside = 0 <= exact <= LOCAL_MAX
        for src, cls in (("Instant.from_timestamp(f)", 0), ("OffsetDateTime.from_timestamp(f, offset=1, ignore_dst=True)", 1), ("ZonedDateTime.from_timestamp(f, tz='Asia/Kathmandu')", 2), ("SystemDateTime.from_timestamp(f)", 3)):
            op = Op(src, "f")
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            try:
                x = op.f(f)
                got = x.timestamp_nanos() + EPOCH_NS
            except RANGE.types as e:
                if 2 * DAY_NS < exact < LOCAL_MAX - 2 * DAY_NS:
                    report(ctx, op, f"within 1 ns of {f!r}", type(e).__name__, (f,))
                ctx.outcomes["range"] += 1
                continue
            if not (abs(got - exact) <= 1) or (f == int(f) and got != exact) or not cal.in_range(got):
                report(ctx, op, f"within 1 ns of {f!r}", repr(x), (f,))
    for f in (math.nan, math.inf, -math.inf, 1e300, -1e300, 1e20):
        for src in ("Instant.from_timestamp(f)", "OffsetDateTime.from_timestamp(f, offset=1, ignore_dst=True)", "ZonedDateTime.from_timestamp(f, tz='Asia/Kathmandu')", "SystemDateTime.from_timestamp(f)"):
            chk(ctx, Op(src, "f"), RANGE, f)
    ctx.sample(f"{len(floats())} floats")


def run_errors(ctx):
    for name, unit in UNITS.items():
        lo, hi = -EPOCH_NS // unit, (LOCAL_MAX - EPOCH_NS) // unit
        for n in [lo - 1, lo - 2, hi + 1, hi + 2, lo * 10, hi * 10, 10**40, -(10**40), 2**63, -(2**63) - 1, 2**64, 2**31 * NS * 1000, lo - 86400, hi + 86400]:
            u = n * unit + EPOCH_NS
            if cal.in_range(u):
                continue
            ctx.states += 1
            chk(ctx, F_I[name], RANGE, n)
            for o in OFFS:
                chk(ctx, F_O[name], RANGE, n, o)
            for k in ZN:
                chk(ctx, F_Z[name], RANGE, n, k)
            chk(ctx, F_S[name], RANGE, n)
        for n in (lo, lo + 1, lo + 86399 * NS // unit, hi, hi - 1, hi - 86399 * NS // unit):
            u = n * unit + EPOCH_NS
            ctx.states += 1
            chk(ctx, F_I[name], eI(u), n)
            for o in OFFS:
                chk(ctx, F_O[name], oexp(o, u), n, o)
            for k in ZN:
                chk(ctx, F_Z[name], zexp(k, u), n, k)
    # whole numbers only, but for seconds
    for name in UNITS:
        for n in (["1", None, b"1", 1j, (1,), Fraction(1)] + ([0.0, 1.5, -1.0, 1e9, float("nan"), float("inf")] if name != "timestamp" else []))[: None if name != "timestamp" else 5]:
            ctx.states += 1
            chk(ctx, F_I[name], TYPE, n)
            chk(ctx, F_O[name], TYPE, n, 3600)
            chk(ctx, F_Z[name], TYPE, n, "Europe/Amsterdam")
            chk(ctx, F_S[name], TYPE, n)
    ctx.sample("one unit beyond the range")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    if kind != "system":
        os.environ["TZ"] = "UTC"
        time.tzset()
    globals()["run_" + kind](ctx, *a)
