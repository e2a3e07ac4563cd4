from __future__ import annotations

import itertools

from whenever import DateDelta, DateTimeDelta, TimeDelta

from .. import cal
from ..cal import MAX_DAYS as MD, MAX_MONTHS as MM, MAX_TDELTA as MX, DAY_NS, NS
from ..vals import RANGE, VALUE, Err, Op, chk, mkDD, mkDTD, mkTD, lit

ID = "C04"
TITLE = "Date and date-time deltas add component-wise and never mix signs"

MO = [0, 1, 11, 12, 13, 25, MM - 1, MM]
DD = [0, 1, 6, 7, 31, MD - 1, MD]
TT = [0, 1, 999_999_999, NS, 86399 * NS + 1, DAY_NS, 2**53 + 1, MX - 1, MX]
MO_T = MO + [2, 3, 24, 1200, MM // 2]
DD_T = DD + [2, 8, 14, 30, 365, MD // 2]


def bounds(tier):
    return {"DateDelta": f"months {MO_T} x days {DD_T} in both signs: all ordered pairs",
            "DateTimeDelta": "the same x 9 time parts (pairs: a 2-level sub-alphabet), all operand type combinations",
            "scalars": "0, +-1, 2, -3, 12, 10**6, 10**30"}


def shards(tier):
    return [("years", i) for i in range(4)] + [("dd", i) for i in range(8)] + [("mixed", i) for i in range(16)] + [("ctor",), ("scalar",)]


def signed(ms, ds):
    return sorted({(s * m, s * d) for m in ms for d in ds for s in (1, -1)}, key=lambda t: (abs(t[0]) + abs(t[1]), t))


def e_dd(m, d):
    if m * d < 0 or abs(m) > MM or abs(d) > MD:
        return RANGE
    return ("DD", m, d)


def e_dtd(m, d, t):
    if m * d < 0 or m * t < 0 or d * t < 0 or abs(m) > MM or abs(d) > MD or abs(t) > MX:
        return RANGE
    return ("DTD", m, d, t)


o_add = Op("a + b", "a b")
o_sub = Op("a - b", "a b")
o_eq = Op("(a == b, a != b, a != b or hash(a) == hash(b))", "a b")


def run_years(ctx, i):
    """every number of years, and the months next to it"""
    for y in range(i, MM // 12 + 1, 4):
        for m in (12 * y - 1, 12 * y, 12 * y + 1 + y % 10):
            for s in (1, -1) if 0 < m <= MM else ():
                x = mkDD(s * m, s * (y % 40))
                ctx.states += 1
                yy, mm = divmod(m, 12)
                chk(ctx, Op("x.in_years_months_days()", "x"), (s * yy, s * mm, s * (y % 40)), x)
                chk(ctx, Op("(x.in_months_days(), -x, abs(x), DateDelta(years=y, months=m, days=d))", "x y m d"), ((s * m, s * (y % 40)), ("DD", -s * m, -s * (y % 40)), ("DD", m, y % 40), ("DD", s * m, s * (y % 40))), x, s * yy, s * mm, s * (y % 40))
    ctx.sample(f"{x}: years and months")


def run_dd(ctx, i):
    vs = signed(MO_T if ctx.tier == "quick" else MO_T + [5, 23, 36, 59, 600, MM // 3], DD_T if ctx.tier == "quick" else DD_T + [5, 29, 60, 366, 1000, MD // 3])
    objs = [mkDD(*v) for v in vs]
    for k in range(i, len(vs), 8):
        (m, d), x = vs[k], objs[k]
        s = -1 if m < 0 or d < 0 else 1
        yy, mm = divmod(abs(m), 12)
        chk(ctx, Op("x.in_months_days()", "x"), (m, d), x)
        chk(ctx, Op("x.in_years_months_days()", "x"), (s * yy, s * mm, d), x)
        chk(ctx, Op("-x", "x"), ("DD", -m, -d), x)
        chk(ctx, Op("+x", "x"), ("DD", m, d), x)
        chk(ctx, Op("abs(x)", "x"), ("DD", abs(m), abs(d)), x)
        chk(ctx, Op("bool(x)", "x"), bool(m or d), x)
        for (m2, d2), y in zip(vs, objs):
            ctx.states += 1
            chk(ctx, o_add, e_dd(m + m2, d + d2), x, y)
            chk(ctx, o_sub, e_dd(m - m2, d - d2), x, y)
            eq = (m, d) == (m2, d2)
            chk(ctx, o_eq, (eq, not eq, True), x, y)
    ctx.sample(f"DateDelta{vs[i]} +/- every one of {len(vs)} DateDeltas")


def triples(tier):
    ms, ds, ts = [0, 1, 12, 13, MM - 1, MM], [0, 1, 7, 31, MD - 1, MD], [0, 1, NS - 1, NS, DAY_NS, MX - 1, MX]
    if tier == "thorough":
        ms, ds, ts = ms + [2, 24, MM // 2], ds + [30, MD // 2], ts + [2**53 + 1, 3 * NS + 7, MX // 2]
    return sorted({(s * m, s * d, s * t) for m in ms for d in ds for t in ts for s in (1, -1)},
                  key=lambda t: (sum(map(abs, t)), t))


def run_mixed(ctx, i):
    vs = triples(ctx.tier)
    objs = [mkDTD(*v) for v in vs]
    dds = [(v, mkDD(*v)) for v in signed([0, 1, 12, MM], [0, 1, 7, MD])]
    tds = [(s * t, mkTD(s * t)) for t in TT for s in ((1, -1) if t else (1,))]
    for k in range(i, len(vs), 16):
        (m, d, t), x = vs[k], objs[k]
        chk(ctx, Op("x.date_part()", "x"), ("DD", m, d), x)
        chk(ctx, Op("x.time_part()", "x"), ("TD", t), x)
        s = -1 if t < 0 else 1
        chk(ctx, Op("x.in_months_days_secs_nanos()", "x"), (m, d, s * (abs(t) // NS), s * (abs(t) % NS)), x)
        chk(ctx, Op("-x", "x"), ("DTD", -m, -d, -t), x)
        chk(ctx, Op("+x", "x"), ("DTD", m, d, t), x)
        chk(ctx, Op("abs(x)", "x"), ("DTD", abs(m), abs(d), abs(t)), x)
        chk(ctx, Op("bool(x)", "x"), bool(m or d or t), x)
        chk(ctx, Op("x.date_part() + x.time_part() == x and x.time_part() + x.date_part() == x and x.date_part() - (-x.time_part()) == x", "x"), True, x)
        chk(ctx, Op("(x == x.date_part(), x == x.time_part(), x == None)", "x"), (False, False, False), x)
        for (m2, d2, t2), y in zip(vs, objs):
            ctx.states += 1
            chk(ctx, o_add, e_dtd(m + m2, d + d2, t + t2), x, y)
            chk(ctx, o_sub, e_dtd(m - m2, d - d2, t - t2), x, y)
            eq = (m, d, t) == (m2, d2, t2)
            chk(ctx, o_eq, (eq, not eq, True), x, y)
        for (m2, d2), y in dds:
            ctx.states += 1
            chk(ctx, o_add, e_dtd(m + m2, d + d2, t), x, y)
            chk(ctx, o_add, e_dtd(m + m2, d + d2, t), y, x)
            chk(ctx, o_sub, e_dtd(m - m2, d - d2, t), x, y)
            chk(ctx, o_sub, e_dtd(m2 - m, d2 - d, -t), y, x)
        for t2, y in tds:
            ctx.states += 1
            chk(ctx, o_add, e_dtd(m, d, t + t2), x, y)
            chk(ctx, o_add, e_dtd(m, d, t + t2), y, x)
            chk(ctx, o_sub, e_dtd(m, d, t - t2), x, y)
            chk(ctx, o_sub, e_dtd(-m, -d, t2 - t), y, x)
    if i == 0:
        for ((m, d), x), (t, y) in itertools.product(dds, tds):
            ctx.states += 1
            chk(ctx, o_add, e_dtd(m, d, t), x, y)
            chk(ctx, o_add, e_dtd(m, d, t), y, x)
            chk(ctx, o_sub, e_dtd(m, d, -t), x, y)
            chk(ctx, o_sub, e_dtd(-m, -d, t), y, x)
    ctx.sample(f"DateTimeDelta{vs[i]} +/- every DateTimeDelta, DateDelta, TimeDelta of the alphabet")


def run_ctor(ctx):
    for y, m, w, d in itertools.product((0, 1, -1, 9999, -9999, 10000), (0, 1, -1, -12, 12, 11), (0, 1, -1, 52), (0, 1, -1, -7, 7, 366 * 9999)):
        ctx.states += 1
        e = e_dd(12 * y + m, 7 * w + d)
        chk(ctx, Op("DateDelta(years=y, months=m, weeks=w, days=d)", "y m w d"), e, y, m, w, d)
        for t in (0, 1, -1, 3600 * NS):
            chk(ctx, Op("DateTimeDelta(years=y, months=m, weeks=w, days=d, nanoseconds=t)", "y m w d t"), e_dtd(12 * y + m, 7 * w + d, t), y, m, w, d, t)
    for h, mi, s, ms, us, ns in itertools.product((0, 1, -1), (0, 60, -60), (0, 1), (0, -1000), (0, 1), (0, -1000)):
        t = h * cal.HOUR_NS + mi * cal.MIN_NS + s * NS + ms * 10**6 + us * 1000 + ns
        for d in (0, 1, -1):
            ctx.states += 1
            chk(ctx, Op("DateTimeDelta(days=d, hours=h, minutes=mi, seconds=s, milliseconds=ms, microseconds=us, nanoseconds=ns)", "d h mi s ms us ns"),
                e_dtd(0, d, t), d, h, mi, s, ms, us, ns)
    for f, (a, b) in (("years", (12, 0)), ("months", (1, 0)), ("weeks", (0, 7)), ("days", (0, 1))):
        for v in (0, 1, -1, 100, 9999, -9999, 9999 * 12, 9999 * 12 + 1, 9999 * 366, 9999 * 366 + 1, 10**20, -(10**20)):
            ctx.states += 1
            chk(ctx, Op(f"{f}(v)", "v"), e_dd(a * v, b * v), v)
            chk(ctx, Op(f"DateDelta({f}=v)", "v"), e_dd(a * v, b * v), v)
            chk(ctx, Op(f"DateTimeDelta({f}=v)", "v"), e_dtd(a * v, b * v, 0), v)
    chk(ctx, Op("DateDelta.ZERO", ""), ("DD", 0, 0))
    chk(ctx, Op("DateTimeDelta.ZERO", ""), ("DTD", 0, 0, 0))
    ctx.sample("DateDelta(years=1, months=-12, weeks=1, days=-7) and all sign mixtures")


def run_scalar(ctx):
    ns = [0, 1, -1, 2, -3, 12, 10**6, 10**30]
    for m, d in signed(MO, DD):
        x = mkDD(m, d)
        for n in ns:
            if not (m or d) and n > 2**31:
                continue  # 0 * huge: 0 or a refused factor
            ctx.states += 1
            chk(ctx, Op("x * n", "x n"), e_dd(m * n, d * n), x, n)
            chk(ctx, Op("n * x", "x n"), e_dd(m * n, d * n), x, n)
    for m, d, t in triples("thorough"):
        x = mkDTD(m, d, t)
        for n in ns:
            if not (m or d or t) and n > 2**31:
                continue
            ctx.states += 1
            chk(ctx, Op("x * n", "x n"), e_dtd(m * n, d * n, t * n), x, n)
            chk(ctx, Op("n * x", "x n"), e_dtd(m * n, d * n, t * n), x, n)
    ctx.sample("DateTimeDelta * int in both operand orders")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
