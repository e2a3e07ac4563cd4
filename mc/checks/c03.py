from __future__ import annotations

from fractions import Fraction

from whenever import TimeDelta, hours, minutes, seconds, milliseconds, microseconds, nanoseconds

from .. import cal
from ..cal import DAY_NS, HOUR_NS, MAX_TDELTA as MX, MIN_NS, NS
from ..vals import RANGE, VALUE, Err, Op, chk, mkTD, report

ID = "C03"
TITLE = "TimeDelta is exact integer nanosecond arithmetic within its range"

_base = [0, 1, 2, 3, 7, 999, 1000, 1001, 1499, 1500, 999_999, 10**6, 10**6 + 1, 999_999_999, NS, NS + 1,
         1_500_000_000, 59 * NS, 60 * NS - 1, MIN_NS, MIN_NS + 1, 3599 * NS + 999_999_999, HOUR_NS, HOUR_NS + 1,
         DAY_NS - 1, DAY_NS, DAY_NS + 1, 36 * HOUR_NS + 4 * MIN_NS + 5 * NS + 6,
         2**31 * 1000, 2**32 * 1000 + 1, 2**53 - 1, 2**53, 2**53 + 1, 2**53 + 3, 2**62 + 1, 2**63 - 1, 2**63, 2**64 + 3,
         10**17 + 1, 123_456_789_012_345_678_901, 300 * 366 * DAY_NS + 1, MX // 2, MX // 2 + 1, MX // 3, MX - NS, MX - 1, MX]
VALUES = sorted({s * v for v in _base for s in (1, -1)}, key=lambda v: (abs(v), v))
EXTRA = sorted({s * (k * u + e) for u in (1, 1000, 10**6, NS, MIN_NS, HOUR_NS, DAY_NS) for k in (1, 5, 23, 59, 60, 61, 999)
                for e in (-1, 0, 1) for s in (1, -1)})
INTS = [0, 1, -1, 2, -2, 3, 7, 10, -10, 24, 60, 1000, 10**6, 10**9, 10**12, -(10**15), 2**40 + 1, 10**30]
FLOATS = [0.0, 0.5, -0.5, 1.0, 1.5, 2.0, -3.0, 0.1, 1 / 3, 1e-9, 1e9, 123.456, -1e-3]


def values(tier):
    if tier == "quick":
        return sorted(set(VALUES) | set(EXTRA), key=lambda v: (abs(v), v))
    more = {s * (k * u + e) for u in (1, 10, 1000, 10**5, 10**6, NS, MIN_NS, HOUR_NS, DAY_NS, 366 * DAY_NS)
            for k in (*range(1, 26), 59, 60, 61, 333, 999, 1000, 1001) for e in (-500, -1, 0, 1, 500) for s in (1, -1)}
    return sorted(set(VALUES) | set(EXTRA) | more, key=lambda v: (abs(v), v))


def bounds(tier):
    n = len(values(tier))
    return {"values": n, "binary": f"all {n}^2 ordered pairs: + - compare // % /", "scalars": len(INTS) + len(FLOATS),
            "powers": f"{len(POWERS)} values around all powers of 2 and 10: unary operations, + - // % with one another, * with all powers of 2",
            "constructor": "every pair of units x boundary amounts; float amounts exactly representable in ns"}


def shards(tier):
    return [("pairs", i) for i in range(24)] + [("unary",), ("ctor",), ("scalar",), *(("powers", i) for i in range(4)), *(("floats", i) for i in range(4))]


o_add = Op("a + b", "a b")
o_sub = Op("a - b", "a b")
o_rel = Op("(a < b, a <= b, a == b, a != b, a > b, a >= b, hash(a) == hash(b) or a != b)", "a b")
o_floor = Op("a // b", "a b")
o_mod = Op("a % b", "a b")
o_div = Op("a / b", "a b")
o_divn = Op("a / n", "a n")
o_mul = Op("a * n", "a n")
o_rmul = Op("n * a", "a n")


def td(v):
    return ("TD", v) if abs(v) <= MX else RANGE


def close(got: float, want: Fraction) -> bool:
    return got == want.numerator / want.denominator  # the nearest float


def run_pairs(ctx, i):
    vs = values(ctx.tier)
    ds = [mkTD(v) for v in vs]
    for k in range(i, len(vs), 24):
        a, x = vs[k], ds[k]
        for b, y in zip(vs, ds):
            ctx.states += 1
            chk(ctx, o_add, td(a + b), x, y)
            chk(ctx, o_sub, td(a - b), x, y)
            chk(ctx, o_rel, (a < b, a <= b, a == b, a != b, a > b, a >= b, True), x, y)
            if b:
                chk(ctx, o_floor, a // b, x, y)
                chk(ctx, o_mod, ("TD", a % b), x, y)
                q = x / y
                ctx.transitions += 1
                ctx.traces += 1
                if type(q) is not float or not close(q, Fraction(a, b)):
                    report(ctx, o_div, float(Fraction(a, b)), q, (x, y))
            else:
                for o in (o_floor, o_mod, o_div):
                    chk(ctx, o, Err(ZeroDivisionError), x, y)
    ctx.sample(f"TimeDelta({vs[i]}ns) with each of {len(vs)} values under + - // % / and the six comparisons")


POWERS = sorted({s * (b**k + e) for b in (2, 10) for k in range(69) for e in (-1, 0, 1) for s in (1, -1) if b**k + e <= MX})


def run_powers(ctx, i):
    """around all powers of two and ten, and with one another"""
    for a in POWERS[i::4]:
        x = mkTD(a)
        unary(ctx, a)
        for b in POWERS:
            y = mkTD(b)
            ctx.states += 1
            chk(ctx, o_add, td(a + b), x, y)
            chk(ctx, o_sub, td(a - b), x, y)
            if b:
                chk(ctx, o_floor, a // b, x, y)
                chk(ctx, o_mod, ("TD", a % b), x, y)
            if (a - b) % 5 == 0 or abs(a) == abs(b):
                chk(ctx, o_rel, (a < b, a <= b, a == b, a != b, a > b, a >= b, True), x, y)
        for k in range(0, 68):
            for n in (2**k, -(2**k) - 1):
                ctx.states += 1
                chk(ctx, o_mul, td(a * n), x, n)
    ctx.sample(f"{len(POWERS)} values around powers of two and ten")


def run_unary(ctx):
    for v in sorted(set(VALUES) | set(EXTRA)):
        unary(ctx, v)
    constants(ctx)


def unary(ctx, v):
    ctx.states += 1
    x = mkTD(v)
    a = abs(v)
    s = -1 if v < 0 else 1
    parts = (a // HOUR_NS, a // MIN_NS % 60, a // NS % 60, a % NS)
    chk(ctx, Op("x.in_nanoseconds()", "x"), v, x)
    chk(ctx, Op("x.in_hrs_mins_secs_nanos()", "x"), tuple(s * p for p in parts), x)
    chk(ctx, Op("-x", "x"), ("TD", -v), x)
    chk(ctx, Op("+x", "x"), ("TD", v), x)
    chk(ctx, Op("abs(x)", "x"), ("TD", a), x)
    chk(ctx, Op("bool(x)", "x"), v != 0, x)
    chk(ctx, Op("x == -(-x) and x == abs(x) * (1 if x >= TimeDelta() else -1) and hash(x) == hash(-(-x))", "x"), True, x)
    chk(ctx, Op("(x == None, x == 0, x == DateTimeDelta(nanoseconds=x.in_nanoseconds()), x != 0)", "x"), (False, False, False, True), x)
    for f, u in (("in_days_of_24h", DAY_NS), ("in_hours", HOUR_NS), ("in_minutes", MIN_NS), ("in_seconds", NS),
                 ("in_milliseconds", 10**6), ("in_microseconds", 1000)):
        o = Op(f"x.{f}()", "x")
        ctx.transitions += 1
        ctx.traces += 1
        if not close(o(x), Fraction(v, u)):
            report(ctx, o, float(Fraction(v, u)), o(x), (x,))
    # standard library: floor to microseconds
    chk(ctx, Op("(lambda t: (t.days * 86400 + t.seconds) * 10**6 + t.microseconds)(x.py_timedelta())", "x"), v // 1000, x)
    chk(ctx, Op("TimeDelta.from_py_timedelta(x.py_timedelta())", "x"), td(v // 1000 * 1000), x)


SIZES = (("in_days_of_24h", DAY_NS), ("in_hours", HOUR_NS), ("in_minutes", MIN_NS), ("in_seconds", NS), ("in_milliseconds", 10**6), ("in_microseconds", 1000))


def run_floats(ctx, i):
    """sizes whose quotients are hard to round: m * 2**k + d, and multiples of the units plus or minus little"""
    vs = {m * 2**k + d for k in range(40, 69) for m in (1, 3, 5, 7, 11, 13) for d in (-2, -1, 0, 1, 2)} | {u * n + d for _, u in SIZES for n in (1, 3, 7, 10**3 + 1, 10**6 + 3, 10**9 + 7, 2**31 + 1) for d in (-1, 0, 1, 333_333_333)}
    vs |= {k * 1_234_567_890_123_456 + k for k in range(1, 2000, 7)}
    vs = sorted(v for v in vs if v <= MX)
    for v in vs[i::4]:
        for s in (v, -v):
            x = mkTD(s)
            ctx.states += 1
            for f, u in SIZES:
                chk(ctx, Op(f"x.{f}()", "x"), s / u, x)
            for y in (NS, 7, HOUR_NS - 1, 3 * 10**17 + 1):
                chk(ctx, Op("x / y", "x y"), s / y, x, mkTD(y))
    ctx.sample(f"{x}: the sizes in every unit are the nearest floats")


def constants(ctx):
    for c, v in (("ZERO", 0), ("MAX", MX), ("MIN", -MX)):
        chk(ctx, Op(f"TimeDelta.{c}", ""), ("TD", v))
    for us in (0, 1, -1, 10**6 - 1, 86400 * 10**6, -86400 * 10**6 - 1, 10**17 + 7, MX // 1000, -MX // 1000, MX // 1000 + 1, -(86400 * 999999999 * 10**6)):
        chk(ctx, Op("TimeDelta.from_py_timedelta(datetime.timedelta(microseconds=us))", "us"), td(us * 1000), us)
    ctx.sample("accessors, negation, abs, stdlib conversion of every boundary value")


UNITS = [("hours", HOUR_NS, hours), ("minutes", MIN_NS, minutes), ("seconds", NS, seconds),
         ("milliseconds", 10**6, milliseconds), ("microseconds", 1000, microseconds), ("nanoseconds", 1, nanoseconds)]


def run_ctor(ctx):
    amounts = [0, 1, -1, 23, 24, 59, 60, 61, -61, 999, 1000, 86399, 86400, 10**6 + 1, 2**31, 2**53 + 1, 10**15 + 7]
    for k, (u, f, fn) in enumerate(UNITS):
        big = [MX // f, MX // f + 1, -(MX // f), -(MX // f) - 1, 10**25, -(10**40)]
        for v in amounts + big:
            ctx.states += 1
            chk(ctx, Op(f"TimeDelta({u}=v)", "v"), td(v * f), v)
            chk(ctx, Op(f"{u}(v)", "v"), td(v * f), v)
        if u != "nanoseconds":
            for v in (0.5, -0.5, 1.5, 0.25, -2.75, 1024.125, 3.0, 1e3, 0.001953125):
                want = int(Fraction(v) * f)
                chk(ctx, Op(f"TimeDelta({u}=v)", "v"), td(want), v)
                chk(ctx, Op(f"{u}(v)", "v"), td(want), v)
            for v in (0.1, 1.1, -0.7, 3.3):
                # not representable: within one float rounding
                o = Op(f"TimeDelta({u}=v).in_nanoseconds()", "v")
                ctx.transitions += 1
                if abs(o(v) - Fraction(v) * f) > 1 + abs(Fraction(v) * f) / 2**51:
                    report(ctx, o, int(Fraction(v) * f), o(v), (v,))
            for v in (float("inf"), float("-inf"), float("nan"), 1e300):
                chk(ctx, Op(f"TimeDelta({u}=float(v))", "v"), RANGE, str(v))
        for u2, f2, _ in UNITS[k + 1:]:
            for v in amounts:
                for v2 in amounts + [-86400, MX // f2]:
                    chk(ctx, Op(f"TimeDelta({u}=a, {u2}=b)", "a b"), td(v * f + v2 * f2), v, v2)
    for a in (0, 1, -2):
        for b in (0, 61):
            for c in (0, -3, 3600):
                for d in (0, 1001):
                    for e in (0, -7):
                        for g in (0, 999, 10**9):
                            ctx.states += 1
                            chk(ctx, Op("TimeDelta(hours=a, minutes=b, seconds=c, milliseconds=d, microseconds=e, nanoseconds=g)", "a b c d e g"),
                                td(a * HOUR_NS + b * MIN_NS + c * NS + d * 10**6 + e * 1000 + g), a, b, c, d, e, g)
    ctx.sample("TimeDelta(hours=1, minutes=-61, ..., nanoseconds=999) sums exactly")


def run_scalar(ctx):
    for v in values(ctx.tier):
        x = mkTD(v)
        for n in INTS:
            ctx.states += 1
            chk(ctx, o_mul, td(v * n), x, n)
            chk(ctx, o_rmul, td(v * n), x, n)
            if n == 0:
                chk(ctx, o_divn, Err(ZeroDivisionError), x, n)
            elif v % n == 0:
                chk(ctx, o_divn, ("TD", v // n), x, n)
            else:
                approx(ctx, o_divn, Fraction(v, n), x, n)
        for fl in FLOATS:
            ctx.states += 1
            approx(ctx, o_mul, v * Fraction(fl), x, fl)
            approx(ctx, o_rmul, v * Fraction(fl), x, fl)
            if fl:
                approx(ctx, o_divn, v / Fraction(fl), x, fl)
            else:
                chk(ctx, o_divn, Err(ZeroDivisionError), x, fl)
    ctx.sample("TimeDelta * int exact; / int exact when divisible; * and / float within one rounding")


def approx(ctx, op, want, x, n):
    ctx.transitions += 1
    ctx.traces += 1
    try:
        got = op(x, n).in_nanoseconds()
    except (ValueError, OverflowError):
        if abs(want) > MX * (1 - Fraction(1, 2**50)):
            ctx.outcomes["err:range"] += 1
        else:
            report(ctx, op, f"about {float(want)}", "range error", (x, n))
        return
    if abs(got - want) > 1 + abs(want) / 2**51:
        report(ctx, op, f"('TD', {int(want)})", f"('TD', {got})", (x, n))


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
