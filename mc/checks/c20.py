from __future__ import annotations

import itertools

from whenever import ImplicitlyIgnoringDST

from .. import cal, pool
from ..cal import DAY_NS, HOUR_NS, INCREMENTS, NS, UNIT_NS, round_int
from ..vals import NODST, RANGE, TYPE, Err, Op, chk, eI, eL, eO, mkDD, mkDTD, mkI, mkL, mkO, mkTD, mkT, report, view
from .c26 import LOCALS, OFFS, model, exp, same_sign

ID = "C20"
TITLE = "DST-unsafe operations never run without an explicit opt-out"

KW = ["years", "months", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"]
DATE_KW, TIME_KW = KW[:4], KW[4:]
UNIT = dict(zip(TIME_KW, (3600 * NS, 60 * NS, NS, 10**6, 1000, 1)))
REPL = {"year": 2024, "month": 1, "day": 15, "hour": 3, "minute": 30, "second": 1, "nanosecond": 5, "offset": 7}
L_ = cal.local_ns
SUBJ = [L_(2023, 3, 26, 2, 30), L_(2023, 10, 29, 2, 30), L_(2024, 2, 29), L_(1969, 12, 31, 23, 59, 59, 999_999_999), L_(2020, 8, 15, 23, 12, 9, 987_654_321), L_(1, 1, 2), L_(9999, 12, 30)]


def bounds(tier):
    return {
        "arithmetic": "every subset of the ten unit keywords (1023) x add/subtract x {no opt-out, opt-out false, opt-out true}, every delta kind, + and -, on local and offset values",
        "others": "every subset of replace fields (255), replace_date, replace_time, every legal rounding (unit, increment, mode), now and from_timestamp*, difference",
        "safe": "date-only arithmetic and rounding of local values; all subsets of units on zoned, system and instant values: never ask",
        "values": f"{len(SUBJ)} local times x {len(OFFS)} offsets",
    }


def shards(tier):
    return [("arith", k, i) for k in ("add", "subtract") for i in range(8)] + [("delta", i) for i in range(4)] + [("replace", i) for i in range(4)] + [
        ("round", i) for i in range(4)] + [("create",)] + [("safe", i) for i in range(4)]


EITHER = Err(ImplicitlyIgnoringDST, *RANGE.types)  # wrong for two reasons
OPT = [("", False), (", ignore_dst=False", False), (", ignore_dst=True", True)]


def subjects(i=0, n=1):
    out = []
    for j, l in enumerate(SUBJ):
        out.append((mkL(l), l, None))
        for off in OFFS if n == 0 else OFFS[(i + j) % 3::3]:
            if cal.in_range(l - off * NS):
                out.append((mkO(l - off * NS, off), l, off))
    return out


def run_arith(ctx, meth, i):
    subs = subjects(i)
    sign = 1 if meth == "add" else -1
    combos = [c for r in range(1, 11) for c in itertools.combinations(KW, r)]
    for c in combos[i::8]:
        for vals_ in ((1,) * len(c), tuple((-1) ** n * (n + 2) for n in range(len(c)))):
            args = ", ".join(f"{k}={v}" for k, v in zip(c, vals_))
            kv = dict(zip(c, vals_))
            mo = sign * (kv.get("years", 0) * 12 + kv.get("months", 0))
            d = sign * (kv.get("weeks", 0) * 7 + kv.get("days", 0))
            t = sign * sum(UNIT[k] * kv.get(k, 0) for k in TIME_KW)
            for o, on in OPT:
                op = Op(f"x.{meth}({args}{o})", "x")
                for x, l, off in subs:
                    ctx.states += 1
                    if on:
                        e = exp(model(l, mo, d, t, off), off)
                    elif off is not None:
                        e = NODST if model(l, mo, d, t, off) is not None else EITHER
                    elif t:
                        # the date part may leave the range before the guard is reached
                        e = NODST if model(l, mo, d, t) is not None else EITHER
                    elif any(k in TIME_KW for k in c):
                        continue  # time units that cancel out: nothing to ask for
                    else:
                        e = exp(model(l, mo, d, 0), None)
                    chk(ctx, op, e, x)
    ctx.sample(op.src)


DELTAS = [
    (0, 0, 1), (0, 0, -HOUR_NS), (0, 0, 24 * HOUR_NS), (0, 1, 0), (1, 0, 0), (-1, -1, 0), (0, 1, HOUR_NS), (0, -1, -1), (12, 3, NS), (-1, 0, -DAY_NS),
]


def run_delta(ctx, i):
    for x, l, off in subjects(i):
        for mo, d, t in DELTAS:
            objs = [mkDTD(mo, d, t)]
            if not (mo or d):
                objs.append(mkTD(t))
            if not t:
                objs.append(mkDD(mo, d))
            for a in objs:
                for meth, sg in (("add", 1), ("subtract", -1)):
                    r = exp(model(l, sg * mo, sg * d, sg * t, off), off)
                    for o, on in OPT:
                        op = Op(f"x.{meth}(a{o})", "x a")
                        ctx.states += 1
                        if on:
                            e = r
                        elif off is not None or t:
                            e = EITHER if r is RANGE else NODST
                        else:
                            e = r
                        chk(ctx, op, e, x, a)
                # operators never take an opt-out
                for s, sg in (("+", 1), ("-", -1)):
                    op = Op(f"x {s} a", "x a")
                    ctx.states += 1
                    if off is None and type(a).__name__ == "DateDelta":
                        chk(ctx, op, exp(model(l, sg * mo, sg * d, 0), None), x, a)
                    elif off is None:
                        chk(ctx, op, NODST, x, a)
                    else:
                        chk(ctx, op, TYPE, x, a)  # ImplicitlyIgnoringDST is a TypeError; either form refuses
    # differences
    for x, l, off in subjects(i):
        for y, l2, off2 in subjects(i):
            if (off is None) != (off2 is None):
                continue
            ctx.states += 1
            if off is None:
                for o, on in OPT:
                    chk(ctx, Op(f"x.difference(y{o})", "x y"), ("TD", l - l2) if on else NODST, x, y)
                chk(ctx, Op("x - y", "x y"), NODST, x, y)
            else:
                chk(ctx, Op("x - y", "x y"), ("TD", (l - off * NS) - (l2 - off2 * NS)), x, y)
                chk(ctx, Op("x.difference(y)", "x y"), ("TD", (l - off * NS) - (l2 - off2 * NS)), x, y)
    ctx.sample("x + a / x - a / x.add(a) without opt-out")


def run_replace(ctx, i):
    names = list(REPL)
    combos = [c for r in range(0, 9) for c in itertools.combinations(names, r)]
    subs = [s for s in subjects(i)]
    for c in combos[i::4]:
        for o, on in OPT:
            args = ", ".join([f"{k}={REPL[k]}" for k in c]) + (o if c else o[2:])
            op = Op(f"x.replace({args})", "x")
            for x, l, off in subs:
                ctx.states += 1
                y, m, d, h, mi, s, ns = cal.fields(l)
                f = dict(year=y, month=m, day=d, hour=h, minute=mi, second=s, nanosecond=ns)
                f.update({k: REPL[k] for k in c if k != "offset"})
                o2 = REPL["offset"] * 3600 if "offset" in c else off
                if f["day"] > cal.dim(f["year"], f["month"]):
                    e = RANGE
                else:
                    l2 = L_(f["year"], f["month"], f["day"], f["hour"], f["minute"], f["second"], f["nanosecond"])
                    e = eL(l2) if off is None else eO(l2 - o2 * NS, o2) if cal.in_range(l2 - o2 * NS) else RANGE
                if off is None:
                    if o or "offset" in c:
                        continue  # not arguments of the local type
                elif not on:
                    e = NODST if e is not RANGE else EITHER
                chk(ctx, op, e, x)
    for x, l, off in subs:
        for o, on in OPT:
            if off is None and o:
                continue
            for src, l2 in (("x.replace_date(Date(2022, 2, 3){})", L_(2022, 2, 3) + l % DAY_NS), ("x.replace_time(Time(1, 2, 3, nanosecond=4){})", l // DAY_NS * DAY_NS + 3723 * NS + 4),
                            # nothing changes; still, it has to be asked for
                            ("x.replace_date(x.date(){})", l), ("x.replace_time(x.time(){})", l), ("x.replace(year=x.year{})", l), ("x.replace(hour=x.hour, nanosecond=x.nanosecond{})", l)):
                e = eL(l2) if off is None else (eO(l2 - off * NS, off) if cal.in_range(l2 - off * NS) else RANGE) if on else NODST
                ctx.states += 1
                chk(ctx, Op(src.format(o), "x"), e, x)
    ctx.sample(op.src)


def run_round(ctx, i):
    forms = [(u, n, m) for u in list(UNIT_NS) + ["day"] for n in (INCREMENTS[u] if u != "day" else [1]) for m in cal.MODES]
    subs = subjects(i)
    for u, n, m in forms[i::4]:
        inc = (UNIT_NS[u] if u != "day" else DAY_NS) * n
        for o, on in OPT:
            op = Op(f"x.round({u!r}, {n}, {m!r}{o})", "x")
            for x, l, off in subs:
                ctx.states += 1
                l2 = l // DAY_NS * DAY_NS + round_int(l % DAY_NS, inc, m)
                if off is None:
                    if not o:
                        chk(ctx, op, eL(l2) if cal.in_range(l2) else RANGE, x)
                elif on:
                    chk(ctx, op, eO(l2 - off * NS, off) if cal.in_range(l2) and cal.in_range(l2 - off * NS) else RANGE, x)
                else:
                    chk(ctx, op, NODST, x)
    for o in ("", "ignore_dst=False"):
        for x, l, off in subs:
            if off is not None:
                chk(ctx, Op(f"x.round({o})", "x"), NODST, x)
    ctx.sample(op.src)


def run_create(ctx):
    ts = [0, 1, -1, 1_680_000_000, -62_000_000_000, 10**11]
    for off in (0, 1, -5, 23, -23):
        for o, on in OPT:
            for u, k, src in ((NS, 1, "from_timestamp"), (10**6, 1000, "from_timestamp_millis"), (1, NS, "from_timestamp_nanos")):
                for t in ts:
                    op = Op(f"OffsetDateTime.{src}({t * k + (1 if k > 1 else 0)}, offset={off}{o})", "")
                    utc = cal.EPOCH_NS + (t * k + (1 if k > 1 else 0)) * u
                    ctx.states += 1
                    chk(ctx, op, eO(utc, off * 3600) if on else NODST)
                    op = Op(f"OffsetDateTime.{src}({t * k + (1 if k > 1 else 0)}, offset=TimeDelta(hours={off}){o})", "")
                    chk(ctx, op, eO(utc, off * 3600) if on else NODST)
            op = Op(f"OffsetDateTime.now({off}{o}).offset.in_hours()", "")
            ctx.states += 1
            chk(ctx, op, float(off) if on else NODST)
    ctx.sample(op.src)


SAFE_NO_DATE = [c for r in range(0, 7) for c in itertools.combinations(TIME_KW, r)]
SAFE_ALL = [c for r in range(0, 11) for c in itertools.combinations(KW, r)]


def run_safe(ctx, i):
    """zoned, system, instant: the operations run without any opt-out"""
    u = L_(2023, 3, 25, 12, 0)
    z, s, n = mkI(u).to_tz("Europe/Amsterdam"), mkI(u).to_system_tz(), mkI(u)
    for c in SAFE_ALL[i::4]:
        args = ", ".join(f"{k}=1" for k in c)
        for meth, sg in (("add", 1), ("subtract", -1)):
            op = Op(f"x.{meth}({args})", "x")
            for x in (z, s) + ((n,) if not set(c) & set(DATE_KW) else ()):
                ctx.states += 1
                ctx.transitions += 1
                try:
                    op.f(x)
                except Exception as e:  # noqa: BLE001
                    report(ctx, op, "a value", type(e).__name__, (x,))
    d0 = cal.days(2023, 3, 25)
    for src in ("x.round('hour')", "x.round('day')", "x.start_of_day()", "x.replace(hour=3)", "x.replace_date(Date(2020, 1, 1))", "x.replace_time(Time(3))", "x.day_length()",
                "x + TimeDelta(hours=1)", "x + DateDelta(days=1)", "x - DateTimeDelta(days=1, hours=1)", "x - x", "x.difference(x)"):
        for x in (z, s):
            ctx.states += 1
            ctx.transitions += 1
            try:
                Op(src, "x").f(x)
            except Exception as e:  # noqa: BLE001
                report(ctx, Op(src, "x"), "a value", type(e).__name__, (x,))
    # time deltas, dates and times never ask either
    for src in ("Date(2020, 1, 1) + DateDelta(days=1)", "Date(2020, 1, 1).add(months=1)", "TimeDelta(hours=1) + TimeDelta(hours=1)", "Date(2020, 1, 1) - Date(2019, 1, 1)",
                "Instant.from_timestamp(0)", "ZonedDateTime.from_timestamp(0, tz='UTC')", "SystemDateTime.from_timestamp(0)", "ZonedDateTime.now('UTC')", "Instant.now()", "SystemDateTime.now()",
                "Instant.from_timestamp(0).to_fixed_offset(5)", "LocalDateTime(2020, 1, 1).assume_fixed_offset(5)", "OffsetDateTime(2020, 1, 1, offset=5).to_tz('UTC')",
                "OffsetDateTime(2020, 1, 1, offset=5).to_fixed_offset(3)", "OffsetDateTime.parse_common_iso('2020-01-01T00:00:00+05:00')", "LocalDateTime(2020, 1, 1).replace(hour=4)"):
        ctx.states += 1
        ctx.transitions += 1
        try:
            Op(src, "").f()
        except Exception as e:  # noqa: BLE001
            report(ctx, Op(src, ""), "a value", type(e).__name__, ())
    ctx.sample("safe operations run without opt-out")


def run(ctx, shard):
    kind, *a = shard
    globals()["run_" + kind](ctx, *a)
