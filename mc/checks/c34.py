"""Comparison and operator laws, across all types and with foreign operands"""
from __future__ import annotations

import datetime
import decimal
import fractions
import os
import time
import unittest.mock
import zoneinfo

import whenever
from whenever import Date, DateDelta, DateTimeDelta, Instant, LocalDateTime, MonthDay, OffsetDateTime, SystemDateTime, Time, TimeDelta, YearMonth, ZonedDateTime

from .. import cal, foreign, pool, synth, vals
from ..cal import DAY_NS, HOUR_NS, NS
from ..foreign import BINARY, COMPARE, Boom, Decides, Declines, Duck, FloatSub, IntSub, Plain, Raises, RightOnly
from ..vals import TYPE, Err, Op, chk, mkDD, mkDTD, mkI, mkL, mkO, mkS, mkT, mkTD

ID = "C34"
TITLE = "Comparisons and operators obey Python's laws, between all types"
SYS = ["Europe/Amsterdam", "America/New_York", "UTC"]
SETUP = "from mc.foreign import *"


def bounds(tier):
    return {
        "comparisons": "all ordered pairs of the pool (all 12 types, values that coincide across types, range ends, values one unit apart in each field) under == != < <= > >= and hash",
        "containers": "set, dict, sorted, min, max over all values of each family, sorted also from every rotation",
        "operators": "all ordered pairs of representatives of the 12 types under 14 operators and their in-place forms",
        "foreign operands": "classes that decide, decline, fail, lack the methods, or look like the value; 20 values of standard types; either side",
        "system zones": SYS,
    }


def shards(tier):
    synth.install(tier)
    return [("compare", k, i) for k in SYS[: None if tier == "thorough" else 2] for i in range(8)] + [("containers",), ("operators",)] + [("foreign", i) for i in range(4)] + [("standard",)]


# ---- the values, with the key of their family --------------------------
U0 = cal.local_ns(2023, 10, 29, 0, 30)
UTCS = sorted({U0, U0 + 1, U0 + NS, U0 + HOUR_NS, U0 - HOUR_NS, cal.local_ns(2020, 2, 29, 12), cal.EPOCH_NS, cal.EPOCH_NS - 1, 2 * DAY_NS, cal.LOCAL_MAX - 2 * DAY_NS})


def exact(tier):
    out = []
    for u in UTCS + [0, cal.LOCAL_MAX]:
        out.append((u, mkI(u)))
    for u in UTCS:
        for o in (0, 3600, 7200, -86399, 86399, 1):
            out.append((u, mkO(u, o)))
        for z in ("Europe/Amsterdam", "Europe/Paris", "UTC", "Asia/Kolkata"):
            out.append((u, mkI(u).to_tz(z)))
        out.append((u, mkS(u)))
    for loc, o in ((0, 0), (0, -3600), (cal.LOCAL_MAX, 0), (cal.LOCAL_MAX, 3600)):
        out.append((loc - o * NS, mkO(loc - o * NS, o)))
    return out


def families(tier):
    L = [0, 1, cal.LOCAL_MAX, U0, U0 + 1, U0 + NS, U0 + 60 * NS, U0 + HOUR_NS, U0 + DAY_NS, cal.local_ns(2023, 11, 29, 0, 30), cal.local_ns(2024, 10, 29, 0, 30), cal.local_ns(2023, 10, 29)]
    D = sorted({0, 1, cal.NDAYS - 1, *(cal.days(y, m, d) for y in (2, 2020, 2021) for m in (1, 2, 10, 12) for d in (1, 2, 10, 28))})
    TOD = sorted({0, 1, DAY_NS - 1, *(h * HOUR_NS + m * 60 * NS + s * NS + f for h in (0, 1, 12) for m in (0, 1, 12) for s in (0, 1) for f in (0, 1, 500))})
    TDS = sorted({sg * x for sg in (1, -1) for x in (0, 1, 999_999_999, NS, NS + 1, 2 * NS - 1, HOUR_NS, DAY_NS, DAY_NS + 1, cal.MAX_TDELTA - 1, cal.MAX_TDELTA)})
    MOD = sorted({(sg * m, sg * d) for sg in (1, -1) for m in (0, 1, 2, 12, 13, 1200, 13_000, cal.MAX_MONTHS) for d in (0, 1, 2, 12, 30, cal.MAX_DAYS)})
    DT = sorted({(m, d, t) for m, d in MOD if (abs(m) < 13 or m == 1200) and abs(d) < 31 for t in (0, 1, -1, NS, -NS, DAY_NS, -DAY_NS) if (m <= 0 and d <= 0 and t <= 0) or (m >= 0 and d >= 0 and t >= 0)})
    return {
        "exact": exact(tier),
        "local": [(x, mkL(x)) for x in L],
        "date": [(n, Date(*cal.civil(n))) for n in D],
        "time": [(t, mkT(t)) for t in TOD],
        "tdelta": [(t, mkTD(t)) for t in TDS],
        "ddelta": [(k, mkDD(*k)) for k in MOD],
        "dtdelta": [(k, mkDTD(*k)) for k in DT],
        "ym": [((y, m), YearMonth(y, m)) for y in (1, 2, 1999, 2000, 9999) for m in (1, 2, 11, 12)],
        "md": [((m, d), MonthDay(m, d)) for m in (1, 2, 11, 12) for d in (1, 2, 11, 28, 29)],
    }


UNORDERED = {"ddelta", "dtdelta"}


def set_zone(key):
    os.environ["TZ"] = key
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {key!r}; time.tzset()"


EQ = Op("(a == b, a != b, b == a, b != a)", "a b")
HASH = Op("hash(a) == hash(b)", "a b")
ORDER = Op("(a < b, a <= b, a > b, a >= b)", "a b")
LT, LE, GT, GE = [Op(f"a {o} b", "a b") for o in ("<", "<=", ">", ">=")]


def run_compare(ctx, key, i):
    set_zone(key)
    fams = families(ctx.tier)
    every = [(f, k, v) for f, kvs in fams.items() for k, v in kvs]
    again = [(f, k, v) for f, kvs in families(ctx.tier).items() for k, v in kvs]  # the same values, other objects
    ctx.states += len(every[i::8])
    for fa, ka, a in every[i::8]:
        for fb, kb, b in again:
            if fa != fb:
                chk(ctx, EQ, (False, True, False, True), a, b)
                if ctx.thorough or kb == fams[fb][0][0] or kb == fams[fb][-1][0]:
                    for op in (LT, LE, GT, GE):
                        chk(ctx, op, TYPE, a, b)
                continue
            same = ka == kb
            chk(ctx, EQ, (same, not same, same, not same), a, b)
            if same:
                chk(ctx, HASH, True, a, b)
            if fa in UNORDERED:
                if ctx.thorough or kb == fams[fb][0][0] or same:
                    for op in (LT, LE, GT, GE):
                        chk(ctx, op, TYPE, a, b)
            else:
                chk(ctx, ORDER, (ka < kb, ka <= kb, ka > kb, ka >= kb), a, b)
    ctx.sample(f"all six comparisons of {fa} with {fb}, system zone {key}")


DISTINCT = Op("(len(set(xs)), len(dict.fromkeys(xs)), len(frozenset(xs)))", "xs")
LOOKUP = Op("[{x: n for n, x in enumerate(xs)}[y] for y in xs]", "xs")
MEMBER = Op("([x in xs[:n] for n, x in enumerate(xs)], [xs.index(x) for x in xs], [xs.count(x) for x in xs])", "xs")
SORT = Op("[[id(x) for x in s] for s in (sorted(xs), sorted(xs, reverse=True), [min(xs), max(xs)])]", "xs")


def run_containers(ctx):
    for key in SYS:
        set_zone(key)
        fams = families(ctx.tier)
        for fam, kvs in fams.items():
            ks = [k for k, _ in kvs]
            xs = [v for _, v in kvs]
            n = len(set(ks))
            chk(ctx, DISTINCT, (n, n, n), xs)
            last = {k: j for j, k in enumerate(ks)}
            chk(ctx, LOOKUP, [last[k] for k in ks], xs)
            chk(ctx, MEMBER, ([ks.index(k) < j for j, k in enumerate(ks)], [ks.index(k) for k in ks], [ks.count(k) for k in ks]), xs)
            ctx.states += len(xs)
            if fam in UNORDERED:
                continue
            for r in range(0, len(xs), 1 if ctx.thorough else 5):
                rot = kvs[r:] + kvs[:r]
                s = sorted(rot, key=lambda kv: kv[0])
                # stable: the first of equals comes first
                chk(ctx, SORT, [[id(v) for _, v in s], [id(v) for _, v in sorted(rot, key=lambda kv: kv[0], reverse=True)], [id(min(rot, key=lambda kv: kv[0])[1]), id(max(rot, key=lambda kv: kv[0])[1])]], [v for _, v in rot])
        every = [(f, k, v) for f, kvs in fams.items() for k, v in kvs]
        n = len({(f, k) for f, k, _ in every})
        chk(ctx, DISTINCT, (n, n, n), [v for _, _, v in every])
    ctx.sample("a set of all values of all types")


# ---- which operators exist ----------------------------------------------
def reps():
    u = cal.local_ns(2020, 8, 15, 12)
    return [Date(2020, 1, 31), mkT(HOUR_NS), YearMonth(2020, 2), MonthDay(2, 29), mkTD(HOUR_NS), mkDD(0, 0), mkDTD(0, 0, HOUR_NS), mkI(u), mkO(u, 3600), mkI(u).to_tz("Europe/Paris"), mkS(u), mkL(u)]


EX = {Instant, OffsetDateTime, ZonedDateTime, SystemDateTime}
DELTA = {TimeDelta, DateDelta, DateTimeDelta}


def offered(op, a, b):
    "whether the operation between these types is offered"
    if op in ("add", "sub"):
        if a in DELTA and b in DELTA:
            return True
        if a in (Date, LocalDateTime) and b is DateDelta:
            return True
        if a is Instant and b is TimeDelta or a in (ZonedDateTime, SystemDateTime) and b in DELTA:
            return True
        if op == "sub" and (a is b is Date or a in EX and b in EX):
            return True
    if a is TimeDelta and b is TimeDelta:
        return op in ("truediv", "floordiv", "mod")
    return False


def opfun(n):
    return {"and": "and_", "or": "or_"}.get(n, n)


def binary_ops():
    out = {}
    for n in BINARY:
        f = "divmod(a, b)" if n == "divmod" else f"operator.{opfun(n)}(a, b)"
        out[n] = [Op(f, "a b")] + ([Op(f"operator.i{n}(a, b)", "a b")] if n != "divmod" else [])
    return out


OPS = binary_ops()


def run_operators(ctx):
    for key in SYS:
        set_zone(key)
        for a in reps():
            for b in reps():
                ctx.states += 1
                for n, ops in OPS.items():
                    ok = offered(n, type(a), type(b))
                    for op in ops:
                        if ok:
                            got = Op("type(" + op.src + ").__module__", "a b")
                            chk(ctx, got, "builtins" if n in ("truediv", "floordiv") else "whenever", a, b)
                        else:
                            chk(ctx, op, TYPE, a, b)
    ctx.sample("every operator between every two types")


# ---- operands of other types ----------------------------------------------
CMP_OPS = {n: Op(f"operator.{n}(a, b)", "a b") for n in COMPARE}
BOOM = Err(Boom)


def pool_values():
    return [v for kvs in families("quick").values() for _, v in kvs[:: max(1, len(kvs) // 6)]] + reps()


def decided(n, v):
    return ("decided", n, vals.view(v))


def run_foreign(ctx, i):
    set_zone(SYS[0])
    vs = pool_values()[i::4]
    yes, no, fails, plain, right = Decides(), Declines(), Raises(), Plain(), RightOnly()
    for v in vs:
        ctx.states += 1
        duck = Duck(v)
        for n, swapped in COMPARE.items():
            op = CMP_OPS[n]
            chk(ctx, op, decided(swapped, v), v, yes, setup=SETUP)
            chk(ctx, op, decided(n, v), yes, v, setup=SETUP)
            chk(ctx, op, BOOM, v, fails, setup=SETUP)
            chk(ctx, op, BOOM, fails, v, setup=SETUP)
            for f in (no, plain, duck):
                exp = {"eq": False, "ne": True}.get(n, TYPE)
                chk(ctx, op, exp, v, f, setup=SETUP)
                chk(ctx, op, exp, f, v, setup=SETUP)
        for n, ops in OPS.items():
            for op in ops:
                chk(ctx, op, decided("r" + n, v), v, yes, setup=SETUP)
                chk(ctx, op, decided(n, v), yes, v, setup=SETUP)
                chk(ctx, op, BOOM, v, fails, setup=SETUP)
                chk(ctx, op, BOOM, fails, v, setup=SETUP)
                chk(ctx, op, decided("r" + n, v), v, right, setup=SETUP)
                if n != "mul":
                    chk(ctx, op, TYPE, right, v, setup=SETUP)
                for f in (no, plain, duck):
                    chk(ctx, op, TYPE, v, f, setup=SETUP)
                    chk(ctx, op, TYPE, f, v, setup=SETUP)
        for n, x, same in ((2, IntSub(2), None), (0, IntSub(0), None), (-3, IntSub(-3), None), (1.5, FloatSub(1.5), None)):
            t = type(v)
            if t is TimeDelta and abs(v.in_nanoseconds()) < cal.MAX_TDELTA // 4 or t in (DateDelta, DateTimeDelta) and type(n) is int:
                try:
                    exp = vals.view(v * n)
                except (ValueError, OverflowError):
                    exp = vals.RANGE
                chk(ctx, OPS["mul"][0], exp, v, x, setup=SETUP)
                chk(ctx, OPS["mul"][0], exp, x, v, setup=SETUP)
                if t is TimeDelta and n:
                    chk(ctx, OPS["truediv"][0], vals.view(v / n), v, x, setup=SETUP)
    ctx.sample(f"every operation of {v!r} with foreign operands")


STANDARD = [
    None, "text", b"bytes", (), (1, 2), [], {}, set(), object, Ellipsis, NotImplemented, 1j, decimal.Decimal(2), fractions.Fraction(1, 2), float("nan"),
    datetime.datetime(2020, 8, 15, 12), datetime.datetime(2020, 8, 15, 12, tzinfo=datetime.timezone.utc), datetime.date(2020, 1, 31), datetime.time(1), datetime.timedelta(hours=1), zoneinfo.ZoneInfo("Europe/Paris"),
    0, 2, 1.5, 0.0, -1, "", b"", 0j, decimal.Decimal(0), fractions.Fraction(0), datetime.timedelta(0), float("inf"), range(0), Date, Instant, TimeDelta, whenever.Weekday.MONDAY,
]
STD_SETUP = "from decimal import Decimal; from fractions import Fraction; from whenever import Weekday; nan = float('nan'); inf = float('inf')"
EQ_LEFT, EQ_RIGHT = Op("(a == b, a != b)", "a b"), Op("(b == a, b != a)", "a b")
NUMBERS = (int, float)


def run_standard(ctx):
    set_zone(SYS[0])
    for v in pool_values():
        ctx.states += 1
        any_ = unittest.mock.ANY
        if not (v == any_ and any_ == v and not v != any_ and not any_ != v):
            ctx.fail("v == unittest.mock.ANY", "True", "False", setup=f"import unittest.mock\nfrom whenever import *\nv = {vals.lit(v)}")
        ctx.transitions += 1
        for s in STANDARD:
            chk(ctx, EQ_LEFT, (False, True), v, s, setup=STD_SETUP)
            chk(ctx, EQ_RIGHT, (False, True), v, s, setup=STD_SETUP)
            for n in ("lt", "le", "gt", "ge"):
                chk(ctx, CMP_OPS[n], TYPE, v, s, setup=STD_SETUP)
                chk(ctx, CMP_OPS[n], TYPE, s, v, setup=STD_SETUP)
            number = type(s) in NUMBERS
            for n, ops in OPS.items():
                mul = n == "mul" and (type(v) is TimeDelta and number or type(v) in (DateDelta, DateTimeDelta) and type(s) is int)
                for op in ops:
                    if not (mul or n == "truediv" and type(v) is TimeDelta and number):
                        chk(ctx, op, TYPE, v, s, setup=STD_SETUP)
                    # text % anything is formatting
                    if not (mul or n == "mod" and isinstance(s, (str, bytes))):
                        chk(ctx, op, TYPE, s, v, setup=STD_SETUP)
    ctx.sample(f"every operation of {v!r} with standard operands")


def run(ctx, shard):
    vals.EXTRA_SETUP = ""
    globals()["run_" + shard[0]](ctx, *shard[1:])
