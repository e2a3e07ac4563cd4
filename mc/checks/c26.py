from __future__ import annotations

from whenever import DateDelta, DateTimeDelta, LocalDateTime, OffsetDateTime, TimeDelta

from .. import cal, pool
from ..cal import DAY_NS, HOUR_NS, MIN_NS, NS
from ..vals import OrErr, NODST, RANGE, TYPE, Op, chk, eL, eO, mkDD, mkDTD, mkL, mkO, mkTD

ID = "C26"
TITLE = "Local and fixed-offset arithmetic is plain clock arithmetic"

L_ = cal.local_ns
LOCALS = sorted({
    L_(y, m, d) + t
    for y, m, d in [(1, 1, 1), (1, 3, 1), (4, 2, 29), (1899, 12, 31), (1900, 2, 28), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29),
                    (2023, 1, 30), (2023, 1, 31), (2023, 2, 28), (2023, 3, 26), (2023, 5, 31), (2023, 10, 29), (2024, 1, 29), (2024, 2, 29), (2024, 3, 31),
                    (2024, 12, 31), (2100, 2, 28), (9998, 12, 31), (9999, 1, 31), (9999, 12, 31)]
    for t in (0, 1, 2 * HOUR_NS + 30 * MIN_NS, 23 * HOUR_NS + 59 * MIN_NS + 59 * NS + 999_999_999)
})
MONTHS = [0, 1, -1, 2, -2, 11, 12, -12, 13, -25, 48, -1200, 9998 * 12 + 11, -9998 * 12 - 11]
DAYS = [0, 1, -1, 3, -3, 7, 28, -28, 29, 30, -30, 31, 365, -366, 3652058, -3652058]
TIMES = [0, 1, -1, 999_999_999, -NS, NS, HOUR_NS, -HOUR_NS, 24 * HOUR_NS - 1, 24 * HOUR_NS, -24 * HOUR_NS, 25 * HOUR_NS + 1, 366 * DAY_NS, -1000 * DAY_NS - 5]
OFFS = [0, 3600, -5 * 3600, 5 * 3600 + 1800, 1, -1, 86399, -86399, -12 * 3600 - 59]


def bounds(tier):
    return {
        "values": f"{len(LOCALS)} local times x (local, {len(OFFS)} offsets)",
        "shifts": f"full product of months {MONTHS} x days {DAYS} x times {len(TIMES)}" + ("" if tier == "thorough" else " (for offsets: 3 of 9 offsets per value, times reduced by half)"),
        "forms": "add/subtract with keywords, delta objects (DateDelta, TimeDelta, DateTimeDelta), spread over all ten keywords, + and - operators",
        "difference": "all ordered pairs",
        "far": f"from {len(FAR)} local and fixed-offset times to every {FAR_STEP[tier]}th date by days, to every 7th month by months, to every {FAR_STEP[tier]}th date by hours and by nanoseconds",
    }


def shards(tier):
    return [("local", i) for i in range(16)] + [("offset", i) for i in range(24)] + [("diff", i) for i in range(8)] + [("spread", i) for i in range(4)] + [("far", i) for i in range(16)]


KW = Op("x.add(months=mo, days=d, nanoseconds=t, ignore_dst=True)", "x mo d t")
KWS = Op("x.subtract(months=mo, days=d, nanoseconds=t, ignore_dst=True)", "x mo d t")
ARG = Op("x.add(a, ignore_dst=True)", "x a")
ARGS = Op("x.subtract(a, ignore_dst=True)", "x a")
DATE_KW = Op("x.add(months=mo, days=d)", "x mo d")
DATE_KWS = Op("x.subtract(months=mo, days=d)", "x mo d")
DATE_ARG = Op("x.add(a)", "x a")
PLUS = Op("x + a", "x a")
MINUS = Op("x - a", "x a")
BACK = Op("x.add(nanoseconds=t, ignore_dst=True).subtract(nanoseconds=t, ignore_dst=True)", "x t")
BACK2 = Op("x.add(TimeDelta(nanoseconds=t), ignore_dst=True).difference(x, ignore_dst=True)", "x t")
BACK3 = Op("x.add(TimeDelta(nanoseconds=t), ignore_dst=True).difference(x)", "x t")
SPREAD = "years=y, months=mo, weeks=w, days=d, hours=h, minutes=mi, seconds=s, milliseconds=ms, microseconds=us, nanoseconds=ns, ignore_dst=True"
SP = Op(f"x.add({SPREAD})", "x y mo w d h mi s ms us ns")
SPS = Op(f"x.subtract({SPREAD})", "x y mo w d h mi s ms us ns")


class Soft(int):
    """A result in range, by way of a date whose UTC equivalent is out of range: may be refused"""


def model(local, mo, d, t, off=None):
    """new local or None (out of range)"""
    n, tod = divmod(local, DAY_NS)
    try:
        y, m, dd = cal.shift_date(*cal.civil(n), mo, d)
    except cal.OutOfRange:
        return None
    l1 = cal.days(y, m, dd) * DAY_NS + tod
    for x in (l1, l1 + t):
        if not cal.in_range(x):
            return None
    if off is not None:
        if not cal.in_range(l1 + t - off * NS):
            return None
        if not cal.in_range(l1 - off * NS):
            return Soft(l1 + t)
    return l1 + t


def exp(local, off):
    if local is None:
        return RANGE
    if type(local) is Soft:
        return OrErr(exp(int(local), off), ValueError, OverflowError)
    return eL(local) if off is None else eO(local - off * NS, off)


def same_sign(*v):
    return all(x >= 0 for x in v) or all(x <= 0 for x in v)


def one(ctx, x, local, off, mo, d, t, full):
    e = exp(model(local, mo, d, t, off), off)
    ctx.states += 1
    chk(ctx, KW, e, x, mo, d, t)
    if not full:
        return
    chk(ctx, KWS, e, x, -mo, -d, -t)
    if same_sign(mo, d, t) and abs(t) < cal.MAX_TDELTA and abs(mo) <= cal.MAX_MONTHS and abs(d) <= cal.MAX_DAYS:
        a = mkDTD(mo, d, t)
        chk(ctx, ARG, e, x, a)
        chk(ctx, ARGS, e, x, -a)
        if not (mo or d):
            chk(ctx, ARG, e, x, mkTD(t))
            chk(ctx, ARGS, e, x, mkTD(-t))
        if not t:
            a = mkDD(mo, d)
            chk(ctx, ARG, e, x, a)
            chk(ctx, ARGS, e, x, -a)
            if off is None:
                chk(ctx, DATE_KW, e, x, mo, d)
                chk(ctx, DATE_KWS, e, x, -mo, -d)
                chk(ctx, DATE_ARG, e, x, a)
                chk(ctx, PLUS, e, x, a)
                chk(ctx, MINUS, e, x, -a)
    if not (mo or d) and type(e) is tuple:
        chk(ctx, BACK, exp(local, off), x, t)
        chk(ctx, BACK2 if off is None else BACK3, ("TD", t), x, t)


def run_local(ctx, i):
    for local in LOCALS[i::16]:
        x = mkL(local)
        for mo in MONTHS:
            for d in DAYS:
                for t in TIMES:
                    one(ctx, x, local, None, mo, d, t, True)
    ctx.sample(f"{x}: all shifts")


def run_offset(ctx, i):
    for j, local in enumerate(LOCALS):
        if j % 24 != i:
            continue
        for k, off in enumerate(OFFS):
            if not ctx.thorough and (j + k) % 3:
                continue
            if not cal.in_range(local - off * NS):
                continue
            x = mkO(local - off * NS, off)
            for n, mo in enumerate(MONTHS):
                for q, d in enumerate(DAYS):
                    for r, t in enumerate(TIMES):
                        if ctx.thorough or (n + q + r) % 2 == 0 or not (mo or d):
                            one(ctx, x, local, off, mo, d, t, True)
            ctx.sample(f"{x}: shifts")


DIFF = Op("a.difference(b, ignore_dst=True)", "a b")
CMP = Op("(a < b, a <= b, a == b, a != b, a > b, a >= b, hash(a) == hash(b))", "a b")


def run_diff(ctx, i):
    more = sorted(set(LOCALS) | {L_(2023, 3, 26, h, m) + n for h in range(4) for m in (0, 30) for n in (0, 1, 500_000_000)})
    objs = [(v, mkL(v)) for v in more]
    for v, a in objs[i::8]:
        for u, b in objs:
            ctx.states += 1
            chk(ctx, DIFF, ("TD", v - u), a, b)
            chk(ctx, CMP, (v < u, v <= u, v == u, v != u, v > u, v >= u, v == u), a, b)
    ctx.sample(f"{a} against {len(objs)} others")


SPREADS = [
    (0, 0, 0, 0, 0, 0, 0, 0, 0, 0),
    (1, 1, 1, 1, 1, 1, 1, 1, 1, 1),
    (-1, 1, -1, 1, -1, 1, -1, 1, -1, 1),
    (1, -13, 1, -8, 25, -61, 61, -1001, 1001, -1),
    (0, 0, 0, 0, -24, 1440, 0, 0, 0, 0),
    (0, 0, -2, 14, 0, 0, 86400, -86_400_000, 0, 5),
    (2, 0, 0, -1, 0, 0, 0, 0, 10**9, -10**12),
    (-3, 30, 4, -29, 48, 0, -1, 1, -1, 1),
] + [tuple(1 if j == i else 0 for j in range(10)) for i in range(10)] + [tuple(-100 if j == i else 0 for j in range(10)) for i in range(10)]


def run_spread(ctx, i):
    U = (3600 * NS, 60 * NS, NS, 10**6, 1000, 1)
    for local in LOCALS[i::4]:
        for off in [None] + OFFS:
            if off is not None and not cal.in_range(local - off * NS):
                continue
            x = mkL(local) if off is None else mkO(local - off * NS, off)
            for sp in SPREADS:
                mo, d = sp[0] * 12 + sp[1], sp[2] * 7 + sp[3]
                t = sum(a * b for a, b in zip(sp[4:], U))
                ctx.states += 1
                chk(ctx, SP, exp(model(local, mo, d, t, off), off), x, *sp)
                chk(ctx, SPS, exp(model(local, -mo, -d, -t, off), off), x, *sp)
    ctx.sample(f"{x}: {len(SPREADS)} keyword spreads")


FAR_STEP = {"quick": 101, "thorough": 7}
FAR = [((1, 1, 1, 12), None), ((1, 12, 31, 23, 59, 59, 999_999_999), 0), ((1582, 10, 15, 1), 3600), ((1970, 1, 1), None), ((1969, 12, 31, 23), -5 * 3600), ((2000, 2, 29, 23, 59, 59, 5), None),
       ((2023, 10, 29, 2, 30), 19800), ((2024, 12, 31, 16, 45), None), ((4999, 8, 29, 7), None), ((5000, 8, 31, 7), -86399), ((9999, 1, 31, 0, 0, 0, 1), 86399), ((9999, 12, 31, 23, 59, 59, 999_999_999), None),
       ((9998, 12, 31, 23, 59, 59, 999_999_999), 0), ((1899, 12, 31, 12), 60), ((4, 2, 29, 6), None), ((3333, 3, 30, 3, 33, 33, 333), -9000)]
FAR_D = Op("x.add(days=d, ignore_dst=True)", "x d")
FAR_M = Op("x.add(months=mo, ignore_dst=True)", "x mo")
FAR_H = Op("x.add(hours=h, ignore_dst=True)", "x h")
FAR_N = Op("x.subtract(nanoseconds=n, ignore_dst=True)", "x n")
FAR_DIFF = Op("x.add(hours=h, ignore_dst=True).difference(x, ignore_dst=True)", "x h")
FAR_DIFF_O = Op("x.add(hours=h, ignore_dst=True).difference(x)", "x h")


def run_far(ctx, i):
    """every distance"""
    f, off = FAR[i]
    local = cal.local_ns(*f)
    x = mkL(local) if off is None else mkO(local - off * NS, off)
    n0 = local // DAY_NS
    step = FAR_STEP[ctx.tier]
    for n in [*range(i % step, cal.NDAYS, step), 0, cal.NDAYS - 1]:
        k = n - n0
        ctx.states += 1
        chk(ctx, FAR_D, exp(model(local, 0, k, 0, off), off), x, k)
        h = 24 * k + n % 24
        e = model(local, 0, 0, h * 3600 * NS, off)
        chk(ctx, FAR_H, exp(e, off), x, h)
        chk(ctx, FAR_N, exp(e, off), x, -h * 3600 * NS)
        if type(e) is int:
            chk(ctx, FAR_DIFF if off is None else FAR_DIFF_O, ("TD", h * 3600 * NS), x, h)
    y, m = f[:2]
    for k in range(-(y * 12 + m - 13) + i % 7, (9999 - y) * 12 + 13 - m, 7):
        ctx.states += 1
        chk(ctx, FAR_M, exp(model(local, k, 0, 0, off), off), x, k)
    ctx.sample(f"{x} + every {step}th number of days")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
