from __future__ import annotations

import pickle

from whenever import TimeDelta

from .. import cal, pool, vals
from ..cal import DAY_NS, HOUR_NS, NS, round_int
from ..vals import Op, chk, eZ, mkI, report, view
from .c10 import Sub

ID = "C11"
TITLE = "A ZonedDateTime is always a real moment, however it was reached"

STARTS = [
    # (zone, other zone, local start)
    ("Europe/Amsterdam", "America/New_York", (2023, 3, 25, 2, 30)),
    ("Europe/Amsterdam", "Asia/Kathmandu", (2023, 10, 28, 2, 30)),
    ("America/New_York", "Europe/London", (2023, 11, 4, 1, 30)),
    ("America/New_York", "America/Sao_Paulo", (2018, 3, 10, 2, 15)),
    ("Australia/Lord_Howe", "Antarctica/Troll", (2023, 10, 1, 1, 45)),
    ("Australia/Lord_Howe", "UTC", (2023, 4, 1, 1, 45)),
    ("America/Sao_Paulo", "Europe/Amsterdam", (2018, 11, 3, 0, 30)),
    ("Pacific/Apia", "Pacific/Kwajalein", (2011, 12, 29, 0, 30)),
    ("Europe/Dublin", "Africa/Casablanca", (2023, 3, 25, 1, 30)),
    ("Antarctica/Troll", "Australia/Lord_Howe", (2023, 3, 25, 2, 0)),
    ("America/St_Johns", "America/Nuuk", (2006, 10, 28, 0, 0, 30)),
    ("Africa/Monrovia", "Europe/Dublin", (1972, 1, 6, 0, 30)),
]


def depth(tier):
    return 5 if tier == "quick" else 8


def bounds(tier):
    return {"starts": [f"{a} {c} (+ {b})" for a, b, c in STARTS], "operations": [o.src for o, _ in ops("A", "B")], "depth": depth(tier),
            "state cap": "none: every state up to the depth is expanded" if tier == "quick" else "60000 states per start"}


def shards(tier):
    return [(i,) for i in range(len(STARTS))]


def ops(A, B):
    """[(operation, model: (key, utc) -> (key, utc))]"""
    def sub(k):
        return Sub(pool.zone(k), False)

    def cald(mo, dd, extra=0, mode=None):
        def f(k, u):
            s = sub(k)
            off = s.z.offset(u // NS)
            n, tod = divmod(u + off * NS, DAY_NS)
            n2 = cal.days(*cal.shift_date(*cal.civil(n), mo, dd))
            return k, s.resolve(n2 * DAY_NS + tod, mode, off) + extra
        return f

    def tod(h, m, s=None, mode=None):
        def f(k, u):
            sb = sub(k)
            off = sb.z.offset(u // NS)
            n, t = divmod(u + off * NS, DAY_NS)
            hh = t // HOUR_NS if h is None else h
            mm = t // (60 * NS) % 60 if m is None else m
            rest = t % (60 * NS) if s is None else s * NS
            return k, sb.resolve(n * DAY_NS + (hh * 60 + mm) * 60 * NS + rest, mode, off)
        return f

    def exact(d):
        return lambda k, u: (k, u + d)

    def keep_local(key2, mode):
        def f(k, u):
            off = pool.zone(k).offset(u // NS)
            k2 = key2 or k
            if k2 == k and mode is None:
                return k, u
            return k2, sub(k2).resolve(u + off * NS, mode or "compatible", None)
        return f

    def rnd(unit, mode):
        def f(k, u):
            s = sub(k)
            off = s.z.offset(u // NS)
            n, t = divmod(u + off * NS, DAY_NS)
            if unit == "day":
                a = s.resolve(n * DAY_NS, "compatible", 0)
                return k, a if u == a else s.resolve((n + 1) * DAY_NS, "compatible", 0)
            return k, s.resolve(n * DAY_NS + round_int(t, vals.cal.UNIT_NS[unit], mode), None, off)
        return f

    def sod(k, u):
        s = sub(k)
        return k, s.resolve((u + s.z.offset(u // NS) * NS) // DAY_NS * DAY_NS, "compatible", 0)

    same = lambda k, u: (k, u)  # noqa: E731
    o = lambda src: Op(src, "x", A=A, B=B)  # noqa: E731
    return [
        (o("x.add(hours=1)"), exact(HOUR_NS)),
        (o("x - TimeDelta(minutes=30)"), exact(-HOUR_NS // 2)),
        (o("x.add(days=1)"), cald(0, 1)),
        (o("x - DateDelta(days=1)"), cald(0, -1)),
        (o("x.add(months=1)"), cald(1, 0)),
        (o("x.subtract(months=1, disambiguate='later')"), cald(-1, 0, mode="later")),
        (o("x + DateTimeDelta(days=1, hours=1)"), cald(0, 1, HOUR_NS)),
        (o("x.add(days=1, hours=-24)"), cald(0, 1, -DAY_NS)),
        (o("x.replace(hour=2)"), tod(2, None)),
        (o("x.replace(minute=30, second=0, nanosecond=0)"), tod(None, 30, 0)),
        (o("x.replace_time(Time(1, 30))"), tod(1, 30, 0)),
        (o("x.replace_time(Time(0, 30), disambiguate='earlier')"), tod(0, 30, 0, "earlier")),
        (o("x.replace(tz=B)"), None),
        (o("x.to_tz(B)"), None),
        (o("x.to_tz(A)"), None),
        (o("x.start_of_day()"), sod),
        (o("x.round('hour', mode='ceil')"), rnd("hour", "ceil")),
        (o("x.round('day', mode='ceil')"), rnd("day", "ceil")),
        (o("x.local().assume_tz(x.tz, disambiguate='later')"), keep_local(None, "later")),
        (o("pickle.loads(pickle.dumps(x))"), same),
        (o("ZonedDateTime.parse_common_iso(x.format_common_iso())"), same),
        (o("ZonedDateTime.from_py_datetime(x.py_datetime())"), same),
        (o("x.to_fixed_offset().to_tz(x.tz)"), same),
    ]


def models(A, B):
    out = []
    for op, f in ops(A, B):
        if op.src == "x.replace(tz=B)":
            def f(k, u):
                off = pool.zone(k).offset(u // NS)
                return (k, u) if k == B else (B, Sub(pool.zone(B), False).resolve(u + off * NS, "compatible", 0))
        elif op.src == "x.to_tz(B)":
            f = lambda k, u: (B, u)  # noqa: E731
        elif op.src == "x.to_tz(A)":
            f = lambda k, u: (A, u)  # noqa: E731
        out.append((op, f))
    return out


def same(x):
    """Names of the observations in which x differs from the value freshly made from its instant.

    (A standard library datetime's `fold` is observed only through the offset: on an
    unambiguous time it means nothing.)
    """
    f = x.instant().to_tz(x.tz)
    px, pf = x.py_datetime(), f.py_datetime()
    obs = {
        "==": x == f and f == x and not x != f,
        "exact_eq": x.exact_eq(f) and f.exact_eq(x),
        "hash": hash(x) == hash(f),
        "order": x <= f and x >= f and not x < f and not x > f,
        "str": str(x) == str(f) and repr(x) == repr(f),
        "ambiguous": x.is_ambiguous() == f.is_ambiguous(),
        "py_datetime": px.replace(fold=0) == pf.replace(fold=0) and px.tzinfo.key == pf.tzinfo.key and px.utcoffset() == pf.utcoffset(),
        "pickle": pickle.loads(pickle.dumps(x)).exact_eq(f),
        "local": x.local() == f.local() and hash(x.local()) == hash(f.local()),
        "time": x.time() == f.time() and hash(x.time()) == hash(f.time()),
        "date": x.date() == f.date(),
        "day_length": x.day_length() == f.day_length(),
        "start_of_day": x.start_of_day().exact_eq(f.start_of_day()),
        "instant": x.instant() == f.instant() and hash(x.instant()) == hash(f.instant()),
        "offset": x.offset == f.offset,
        "to_fixed_offset": x.to_fixed_offset().exact_eq(f.to_fixed_offset()),
        "difference": x - f == TimeDelta() and f - x == TimeDelta(),
    }
    return tuple(k for k, v in obs.items() if not v)


def run(ctx, shard):
    A, B, f = STARTS[shard[0]]
    mods = models(A, B)
    z = pool.zone(A)
    local = cal.local_ns(*f)
    start = (A, z.resolve(local // NS, "compatible") * NS)
    x0 = mkI(start[1]).to_tz(A)
    seen = {(*start, x0.py_datetime().fold)}
    frontier = [(start, x0)]
    cap = 10**9 if not ctx.thorough else 60000
    for d in range(depth(ctx.tier)):
        nxt = []
        for (k, u), x in frontier:
            for op, f in mods:
                k2, u2 = f(k, u)
                z2 = pool.zone(k2)
                e = eZ(k2, u2, z2.offset(u2 // NS))
                ctx.transitions += 1
                ctx.traces += 1
                y = op(x)
                v = view(y)
                if v != e:
                    report(ctx, op, e, repr(v), (x,), setup=f"A, B = {A!r}, {B!r}")
                    continue
                # invariant: indistinguishable from the value freshly made from its instant
                d_ = same(y)
                if d_:
                    report(ctx, Op(f"same({op.src})", "x", A=A, B=B, same=same), (), d_, (x,), setup=f"from mc.checks.c11 import same; A, B = {A!r}, {B!r}")
                # the fold of the standard library value is the only internal state
                # visible beyond the model's: objects that differ in it stay distinct
                h = (k2, u2, y.py_datetime().fold)
                if h not in seen and len(seen) < cap:
                    seen.add(h)
                    # keep the object as it was reached: its history is the point
                    nxt.append(((k2, u2), y))
        frontier = nxt
        ctx.outcomes[f"depth {d + 1} new states"] += len(nxt)
    ctx.states += len(seen)
    ctx.sample(f"from {x0}: {len(seen)} distinct values reached within {depth(ctx.tier)} operations; e.g. {y} by ... {op.src}")
