from __future__ import annotations

from whenever import Instant, LocalDateTime, OffsetDateTime, Time, TimeDelta

from .. import cal
from ..cal import DAY_NS, INCREMENTS, MAX_TDELTA as MX, MODES, NS, UNIT_NS, round_int
from ..vals import RANGE, TYPE, VALUE, NODST, Op, chk, mkI, mkL, mkO, mkT, mkTD, eI, eL, eO

ID = "C13"
TITLE = "Rounding gives the nearest multiple of the increment chosen by the mode"

UNITS = list(UNIT_NS)
DAYS_ = [cal.days(1, 1, 1), cal.days(2024, 2, 29), cal.days(1969, 12, 31), cal.days(9999, 12, 31)]


def all_incs():
    return [(u, i) for u in UNITS for i in INCREMENTS[u]]


def bounds(tier):
    return {
        "increments": "every legal (unit, increment) and every illegal increment 0..1001 per unit",
        "modes": MODES,
        "carry": f"the end of every day of {CARRY}",
        "values": "k*inc + {0, 1, half-1, half, half+1, inc-1} for boundary k incl. both parities, on "
        + ("4 dates" if tier == "quick" else "14 dates, 200 k per increment"),
    }


def shards(tier):
    out = [("inc", u, i) for u, i in all_incs()]
    out += [("tdelta_hours", h) for h in range(0, 1000, 50)]
    return out + [("illegal",), ("defaults",), ("sign",)] + [("carry", y) for y in CARRY]


def offs(inc):
    h = inc // 2
    return sorted(e for e in {0, 1, h - 1, h, h + 1, (inc + 1) // 2, inc - 1, inc // 3} if 0 <= e < inc)


def ks(inc, total, tier):
    n = total // inc
    out = {0, 1, 2, 3, n // 2, n // 2 + 1, n - 2, n - 1}
    if tier == "thorough":
        out |= {n * j // 100 for j in range(100)} | {n * j // 100 + 1 for j in range(100)}
    return sorted(k for k in out if 0 <= k < n)


o_round = Op("x.round(unit, increment=inc, mode=mode)", "x unit inc mode")
o_rounddst = Op("x.round(unit, increment=inc, mode=mode, ignore_dst=True)", "x unit inc mode")


def run_inc(ctx, unit, i):
    inc = UNIT_NS[unit] * i
    days = DAYS_
    if ctx.tier == "thorough":
        days = days + [cal.days(y, m, d) for y, m, d in [(1, 1, 2), (1899, 12, 31), (1900, 2, 28), (1970, 1, 1), (1999, 12, 31),
                                                          (2000, 2, 29), (2023, 12, 31), (2024, 12, 31), (2100, 2, 28), (9999, 12, 30)]]
    for k in ks(inc, DAY_NS, ctx.tier):
        for e in offs(inc):
            tod = k * inc + e
            t = mkT(tod)
            for mode in MODES:
                ctx.states += 1
                r = round_int(tod, inc, mode)
                chk(ctx, o_round, ("T", r % DAY_NS), t, unit, i, mode)
                for n in days:
                    x = n * DAY_NS
                    rr = x + r
                    chk(ctx, o_round, eL(rr) if cal.in_range(rr) else RANGE, mkL(x + tod), unit, i, mode)
                    chk(ctx, o_round, eI(rr) if cal.in_range(rr) else RANGE, mkI(x + tod), unit, i, mode)
            for n in days:
                for off in (0, 3600 * 5 + 1800, -3600 * 11 - 17, 86399, -86399):
                    u = n * DAY_NS + tod - off * NS
                    if not cal.in_range(u):
                        continue
                    x = mkO(u, off)
                    for mode in MODES:
                        ctx.states += 1
                        r = round_int(tod, inc, mode) + n * DAY_NS
                        ok = cal.in_range(r) and cal.in_range(r - off * NS)
                        chk(ctx, o_rounddst, eO(r - off * NS, off) if ok else RANGE, x, unit, i, mode)
    # durations, both signs, large values
    n = MX // inc
    for k in sorted({0, 1, 2, 3, 4, n // 2, n // 2 + 1, n - 1, n} | ({n * j // 50 for j in range(50)} if ctx.tier == "thorough" else set())):
        for e in offs(inc):
            for s in (1, -1):
                v = s * (k * inc + e)
                if abs(v) > MX:
                    continue
                x = mkTD(v)
                for mode in MODES:
                    ctx.states += 1
                    r = round_int(v, inc, mode)
                    chk(ctx, o_round, ("TD", r) if abs(r) <= MX else RANGE, x, unit, i, mode)
    ctx.sample(f"round({unit!r}, increment={i}) of k*inc+{offs(inc)} in all 5 modes for Time, TimeDelta, Instant, LocalDateTime, OffsetDateTime")


CARRY = [1, 4, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2100, 2400, 4000, 9999]
LATE = [("nanosecond", 500, DAY_NS - 1), ("millisecond", 1, DAY_NS - 1), ("second", 1, DAY_NS - 1), ("second", 30, DAY_NS - 7 * NS), ("minute", 1, DAY_NS - 20 * NS), ("minute", 15, DAY_NS - 500 * NS), ("hour", 1, DAY_NS - 1500 * NS),
        ("hour", 6, DAY_NS - 7000 * NS), ("hour", 12, DAY_NS - 9 * 3600 * NS)]


def run_carry(ctx, y):
    """rounding up to midnight at the end of every day of the year"""
    for n in range(cal.days(y, 1, 1), cal.days(y, 12, 31) + 1):
        for unit, i, tod in LATE:
            ctx.states += 1
            lo = n * DAY_NS
            for mode in MODES:
                r = lo + round_int(tod, UNIT_NS[unit] * i, mode)
                chk(ctx, o_round, eL(r) if cal.in_range(r) else RANGE, mkL(lo + tod), unit, i, mode)
                chk(ctx, o_round, eI(r) if cal.in_range(r) else RANGE, mkI(lo + tod), unit, i, mode)
                off = 3600
                u = lo + tod - off * NS
                if cal.in_range(u):
                    chk(ctx, o_rounddst, eO(r - off * NS, off) if cal.in_range(r) and cal.in_range(r - off * NS) else RANGE, mkO(u, off), unit, i, mode)
    ctx.sample(f"every day of {y}, rounded up to midnight by {len(LATE)} increments")


def run_sign(ctx):
    """day rounding of local and offset datetimes"""
    for n in DAYS_:
        for tod in (0, 1, DAY_NS // 2 - 1, DAY_NS // 2, DAY_NS // 2 + 1, DAY_NS - 1):
            for mode in MODES:
                ctx.states += 1
                lo = n * DAY_NS
                if mode == "floor" or tod == 0:
                    r = lo
                elif mode == "ceil":
                    r = lo + DAY_NS
                else:
                    twice = 2 * tod
                    up = twice > DAY_NS or (twice == DAY_NS and mode == "half_ceil")
                    r = lo + DAY_NS if up else lo
                    if twice == DAY_NS and mode == "half_even":
                        # "even" counts days from midnight: 0 is even, so halfway rounds down
                        r = lo
                chk(ctx, o_round, eL(r) if cal.in_range(r) else RANGE, mkL(lo + tod), "day", 1, mode)
                for off in (0, 7200, -7200):
                    u = lo + tod - off * NS
                    if cal.in_range(u):
                        ok = cal.in_range(r) and cal.in_range(r - off * NS)
                        chk(ctx, o_rounddst, eO(r - off * NS, off) if ok else RANGE, mkO(u, off), "day", 1, mode)
    ctx.sample("LocalDateTime.round('day') around noon in all modes")


def run_tdelta_hours(ctx, h0):
    for i in range(h0 + 1, h0 + 51):
        inc = i * UNIT_NS["hour"]
        for k in (0, 1, 2, -1, -2, -3):
            for e in (0, 1, inc // 2 - 1, inc // 2, inc // 2 + 1, inc - 1):
                v = k * inc + e
                for mode in MODES:
                    ctx.states += 1
                    chk(ctx, o_round, ("TD", round_int(v, inc, mode)), mkTD(v), "hour", i, mode)
        for v in {MX, MX - 1, MX // inc * inc, MX // inc * inc + inc // 2, MX // inc * inc - 1}:
            for v in (v, -v):
                for mode in MODES:
                    if abs(v) <= MX:
                        ctx.states += 1
                        r = round_int(v, inc, mode)
                        chk(ctx, o_round, ("TD", r) if abs(r) <= MX else RANGE, mkTD(v), "hour", i, mode)
    ctx.sample(f"TimeDelta.round('hour', increment={h0 + 1}..{h0 + 50})")


def run_illegal(ctx):
    samples = [(mkT(NS + 5), o_round), (mkI(63 * 10**18), o_round), (mkL(63 * 10**18), o_round), (mkO(63 * 10**18, 3600), o_rounddst), (mkTD(10**15 + 1), o_round)]
    for unit in UNITS:
        for i in list(range(-3, 1002)) + [1440, 3600, 86400, 10**6, 10**9, 10**20]:
            legal = i in INCREMENTS[unit]
            for x, op in samples:
                ctx.states += 1
                if type(x) is TimeDelta and unit == "hour" and 1 <= i <= 1000:
                    continue
                if not legal:
                    chk(ctx, op, RANGE if i >= 2**63 else VALUE, x, unit, i, "half_even")
    for x, op in samples:
        for mode in MODES:
            if type(x) in (Time, Instant, TimeDelta):
                chk(ctx, op, VALUE, x, "day", 1, mode)
            else:
                for i in (0, 2, 7, -1):
                    chk(ctx, op, VALUE, x, "day", i, mode)
        for unit in ("", "Hour", "week", "hours", "month"):
            chk(ctx, op, VALUE, x, unit, 1, "floor")
        for mode in ("", "up", "half", "half_up", "HALF_EVEN"):
            chk(ctx, op, VALUE, x, "second", 1, mode)
    chk(ctx, o_round, NODST, samples[3][0], "second", 1, "floor")
    ctx.sample("every illegal increment is rejected with ValueError")


def run_defaults(ctx):
    for ns in (0, 1, NS // 2 - 1, NS // 2, NS // 2 + 1, NS - 1):
        for s in (0, 1, 58, 59):
            tod = 23 * 3600 * NS + 59 * 60 * NS + s * NS + ns
            d = cal.days(2023, 12, 31) * DAY_NS
            r = round_int(tod, NS, "half_even")
            ctx.states += 1
            chk(ctx, Op("x.round()", "x"), ("T", r % DAY_NS), mkT(tod))
            chk(ctx, Op("x.round()", "x"), eL(d + r), mkL(d + tod))
            chk(ctx, Op("x.round()", "x"), eI(d + r), mkI(d + tod))
            chk(ctx, Op("x.round(ignore_dst=True)", "x"), eO(d + r, 0), mkO(d + tod, 0))
            chk(ctx, Op("x.round()", "x"), ("TD", r), mkTD(tod))
            chk(ctx, Op("x.round()", "x"), ("TD", round_int(-tod, NS, "half_even")), mkTD(-tod))
            for u in UNITS:
                for mode in MODES:
                    chk(ctx, Op("x.round(u, mode=mode)", "x u mode"), eI(d + round_int(tod, UNIT_NS[u], mode)), mkI(d + tod), u, mode)
                chk(ctx, Op("x.round(u)", "x u"), eI(d + round_int(tod, UNIT_NS[u], "half_even")), mkI(d + tod), u)
                chk(ctx, Op("x.round(u)", "x u"), ("TD", round_int(tod, UNIT_NS[u], "half_even")), mkTD(tod), u)
                chk(ctx, Op("x.round(u)", "x u"), ("T", round_int(tod, UNIT_NS[u], "half_even") % DAY_NS), mkT(tod), u)
    ctx.sample("x.round() means half_even to the second")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
