"""No operand and no text makes an operation take long"""
from __future__ import annotations

import datetime
import itertools
import os
import time
import zlib

import whenever
from whenever import *  # noqa: F403
from whenever import MonthDay, YearMonth

from .. import cal, cost, hist, pool, synth
from ..cal import NS
from ..hist import PARIS
from ..vals import lit, mkI, mkL
from . import c16, c17

ID = "C37"
TITLE = "Every operation finishes promptly, whatever its operands"
ASSUMPTIONS = [f"promptly: within {cost.LINES} lines of library code (and five for every character of a text) and {cost.SECONDS} seconds of processor time (the longest operations take 126 lines and a few milliseconds)"]
RULE = "states: programs x operands; transitions: evaluations; traces: measurements"
PARTS = 24
# sizes around and far beyond every limit
INTS = [s * x for x in (0, 1, 7, 60, 999, 10**4, 10**5 + 1, 3_652_058, 10**7, 10**9, 2**31, 86_400 * 10**9, 2**63, 10**18, 3 * 10**20, 10**40, 10**4000, 1 << 100_000) for s in (1, -1) if x or s > 0]
FLOATS = [s * x for x in (0.5, 1e-9, 5e-324, 1e9 + 0.1, 86_399_999_999.5, 1e18, 1e300, float("inf")) for s in (1, -1)] + [float("nan")]
BIG = {
    "int": INTS, "float": FLOATS, "TimeDelta": [TimeDelta.MIN, TimeDelta(nanoseconds=1)], "DateDelta": [DateDelta(months=119_988), DateDelta(days=-3_652_058), DateDelta(months=-119_988, days=-30)],
    "DateTimeDelta": [DateTimeDelta(months=119_988), DateTimeDelta(days=3_652_058, hours=87_649_392), DateTimeDelta(hours=-87_649_392)], "Date": [Date(1, 1, 31), Date(9999, 2, 28)],
    "datetime.timedelta": [datetime.timedelta.max, datetime.timedelta.min],
}
LENGTHS = {"quick": (60, 1_000, 20_000, 100_000), "thorough": (25, 60, 300, 1_000, 20_000, 100_000, 400_000)}

UNITS = ("hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds")
DATES = ("years", "months", "weeks", "days")
FIELDS = ("year", "month", "day", "hour", "minute", "second", "nanosecond")


def magnitudes():
    """source and the sorts of its operands; n is a number"""
    out = [(f"{u}(n)", ("n",)) for u in UNITS + DATES]
    for c, us in (("TimeDelta", UNITS), ("DateDelta", DATES), ("DateTimeDelta", DATES + UNITS)):
        out += [(f"{c}({u}=n)", ("n",)) for u in us] + [(f"{c}({u}=n, {v}=-m)", ("n", "m")) for u, v in itertools.combinations(us, 2)]
        out += [(f"x * n", (c, "n")), ("n * x", (c, "n")), ("x / n", (c, "n")), ("x // n", (c, "n")), ("x % n", (c, "n")), ("x + y", (c, c)), ("x - y", (c, c)), ("-x", (c,)), ("abs(x)", (c,)),
                (f"{c}.parse_common_iso('PT%dH' % n)", ("n",)), (f"{c}.parse_common_iso('P%dD' % n)", ("n",)), ("str(x)", (c,)), ("repr(x)", (c,)), ("hash(x)", (c,))]
    out += [(f"x {o} y", ("TimeDelta", "TimeDelta")) for o in ("/", "//", "%")] + [(f"x.round('{u}', increment=n, mode='{m}')", ("TimeDelta", "n")) for u in ("hour", "nanosecond") for m in ("half_even", "ceil")]
    for c, kw in (("Instant", ""), ("OffsetDateTime", ", ignore_dst=True"), ("ZonedDateTime", ""), ("SystemDateTime", ""), ("LocalDateTime", ", ignore_dst=True"), ("Date", "")):
        us = (UNITS if c != "Date" else ()) + (DATES if c != "Instant" else ())
        out += [(f"x.{m}({u}=n{kw})", (c, "n")) for m in ("add", "subtract") for u in us]
        out += [(f"x.{m}({', '.join(f'{u}={v}' for u, v in zip(us[-3:], ('n', 'm', '-n')))}{kw})", (c, "n", "m")) for m in ("add", "subtract")]
        if c != "Instant":
            out += [(f"x.replace({f}=n{kw if c[0] == 'O' else ''})", (c, "n")) for f in (FIELDS if c != "Date" else FIELDS[:3])]
        if c != "Date":
            out += [(f"x.round('{u}', increment=n{kw if c[0] == 'O' else ''})", (c, "n")) for u in ("minute", "second", "nanosecond")]
            ds = ("TimeDelta",) if c == "Instant" else ("TimeDelta", "DateDelta", "DateTimeDelta")
            out += [(f"x.{m}(y{kw})", (c, d)) for m in ("add", "subtract") for d in ds]
        out += [(f"x - y{'' if c != 'LocalDateTime' else ' if 0 else x.difference(y, ignore_dst=True)'}", (c, c)), (f"x.exact_eq(y)" if c not in ("Date", "LocalDateTime") else "x == y", (c, c)), ("x < y", (c, c))]
    for c, kw in (("Instant", ""), ("OffsetDateTime", ", offset=1, ignore_dst=True"), ("ZonedDateTime", ", tz='Europe/Paris'"), ("SystemDateTime", "")):
        out += [(f"{c}.from_timestamp{u}(n{kw})", ("n",)) for u in ("", "_millis", "_nanos")]
    out += [("x.to_fixed_offset(n)", ("Instant", "n")), ("x.assume_fixed_offset(n)", ("LocalDateTime", "n")), ("OffsetDateTime(2020, 1, 1, offset=n)", ("n",)), ("x.days_until(y)", ("Date", "Date")), ("x.days_since(y)", ("Date", "Date")), ("x + y", ("Date", "DateDelta")),
            ("x - y", ("Date", "DateDelta")), ("x.year_month().on_day(n)", ("Date", "n")), ("x.month_day().in_year(n)", ("Date", "n")), ("Date(n, m, 1)", ("n", "m")), ("Time(n, m)", ("n", "m")), ("LocalDateTime(n, m, 1)", ("n", "m")), ("YearMonth(n, m)", ("n", "m")),
            ("MonthDay(n, m)", ("n", "m")), ("ZonedDateTime(n, m, 1, tz='Europe/Paris')", ("n", "m")), ("SystemDateTime(n, m, 1)", ("n", "m")), ("x.round('minute', increment=n)", ("Time", "n")), ("x.on(y)", ("Time", "Date")), ("Instant.from_utc(2020, 1, 1, nanosecond=n)", ("n",))]
    return list(dict.fromkeys(out))


def operands(sort):
    if sort in ("n", "m"):
        return (INTS + FLOATS) if sort == "n" else INTS[:: 7] + FLOATS[::7]
    return [*hist.POOL[sort], *BIG.get(sort, ())]


SETUP = f"import os, time\nos.environ['TZ'] = {PARIS!r}; time.tzset()\nimport copy, pickle, datetime, zoneinfo, whenever\nfrom mc import cost\nfrom whenever import *\nfrom whenever import YearMonth, MonthDay, SkippedTime, RepeatedTime, InvalidOffset\ninf, nan = float('inf'), float('nan')\n"


def bounds(tier):
    return {"programs": "every operation, method, constructor of the stubs (also with wrong arguments) on all of the pool's values, with numbers of up to 4,000 digits",
            "magnitudes": f"{len(magnitudes())} operations with {len(INTS) + len(FLOATS)} numbers from 5e-324 to 2**100000, values from one end of the range to the other",
            "texts": f"{len(parsers())} parsers and their seed texts: every substring repeated, and every character of an alphabet inserted at every place repeated, up to lengths {LENGTHS[tier]}, followed by the rest, the rest and another character, or nothing",
            "zones": f"{len(pool.keys())} real zones: operations at recent transitions and the ends of the range; {len(synth.specs('quick'))} synthetic zones"}


def shards(tier):
    return [("programs", i) for i in range(PARTS)] + [("magnitudes", i) for i in range(PARTS)] + [("texts", i, j) for i in range(len(parsers())) for j in range(4)] + [("zones", c) for c in pool.chunk(pool.keys(), 16)] + [
        ("synth", c) for c in pool.chunk(synth.specs("quick"), 4)]


def init_worker():
    os.environ["TZ"] = PARIS
    time.tzset()


def measure(ctx, src, f, names, vals, setup=""):
    """f in few lines and little time"""
    ctx.states += 1
    ctx.transitions += 2
    ctx.traces += 1
    most = cost.most(vals)
    if (n := cost.lines(f, vals, most)) <= most and cost.seconds(f, vals) < cost.SECONDS:
        ctx.most = max(getattr(ctx, "most", 0), n)
        return True
    got = cost.prompt(f, *vals)
    ctx.outcomes["measured again"] += 1
    if got == "promptly":
        return True
    ops = ", ".join(text_of(v) for v in vals)
    ctx.fail(f"cost.prompt(lambda {', '.join(names)}: {src}, {ops})", "promptly", got, setup=SETUP + setup, key=f"{src} @ {ops}"[:300])
    return False


def text_of(v):
    if type(v) is int and abs(v) > 10**50:
        b = v.bit_length()
        return next(t for t in ("10**4000", "-10**4000", "1 << 100_000", "-(1 << 100_000)") if eval(t) == v) if b > 1000 else str(v)
    return lit(v)


def run_programs(ctx, i):
    bad = 0
    for src, f, sorts in hist.functions():
        if zlib.crc32(src.encode("utf8", "surrogatepass")) % PARTS != i:
            continue
        names = f.__code__.co_varnames[: f.__code__.co_argcount]
        for vals in itertools.product(*(operands(s)[:: 1 if s not in ("int", "float") else 3] for s in sorts)):
            if not measure(ctx, src, f, names, vals):
                bad += 1
                break
        if bad > 5:
            return
    ctx.sample(f"{src}: at most {getattr(ctx, 'most', 0)} lines")


def run_magnitudes(ctx, i):
    bad = 0
    for src, sorts in magnitudes()[i::PARTS]:
        names = ["n" if s == "n" else "m" if s == "m" else "xy"[sum(t not in "nm" for t in sorts[:k])] for k, s in enumerate(sorts)]
        f = eval(f"lambda {', '.join(names)}: {src}", dict(vars(whenever)))
        for vals in itertools.product(*map(operands, sorts)):
            if not measure(ctx, src, f, names, vals):
                bad += 1
                break
        if bad > 3:
            return
    ctx.sample(f"{src}: at most {getattr(ctx, 'most', 0)} lines")


# ---- texts ---------------------------------------------------------------
DURATIONS = {"TimeDelta": ["PT1H2M3.5S", "-P0DT25H"], "DateDelta": ["P1Y2M3W4D", "-P10D"], "DateTimeDelta": ["P1Y2M3W4DT5H6M7.000000008S", "-PT3M"]}


def parsers():
    out = [(op.src, ss[:2]) for k, ss in c16.SEEDS.items() for op in (c16.PARSE[k],)]
    out += [(f"{k}.parse_common_iso(s)", ss) for k, ss in DURATIONS.items()]
    out += [(f"{k}.parse_rfc2822(s)", c17.SEEDS[:2]) for k in ("Instant", "OffsetDateTime")]
    out += [("LocalDateTime.strptime(s, '%Y-%m-%d %H:%M:%S.%f')", ["2020-08-15 23:12:09.5"]), ("OffsetDateTime.strptime(s, '%a %d %B %Y %I:%M %p %z')", ["Sat 15 August 2020 11:12 PM +02:00"]),
            ("ZonedDateTime(2020, 1, 1, tz=s)", ["Europe/Paris", "Etc/GMT+5"]), ("Instant.from_utc(2020, 1, 1).round(s)", ["minute"]), ("LocalDateTime(2020, 1, 1).assume_tz('UTC', disambiguate=s)", ["compatible"])]
    return out


CHARS = list("019PTYMWDHS.,:+-Zz[]/ \n\t") + ["é", "٣", "\0"]


def texts(seeds, lengths):
    for s in seeds:
        pumps = [(i, j, s[i:j]) for i in range(len(s)) for j in range(i + 1, len(s) + 1)] + [(i, i, c) for i in range(len(s) + 1) for c in CHARS]
        for i, j, p in pumps:
            for n in lengths:
                body = f"{s!r}[:{i}] + {p!r} * {max(2, n // len(p))}"
                for tail in (f" + {s!r}[{j}:]", f" + {s!r}[{j}:] + '!'", ""):
                    yield body + tail, s[:i] + p * max(2, n // len(p)) + (s[j:] + "!" * (tail[-1:] == "'") if tail else "")


def run_texts(ctx, i, part):
    src, seeds = parsers()[i]
    f = eval(f"lambda s: {src}", dict(vars(whenever)))
    bad = 0
    for how, s in itertools.islice(texts(seeds, LENGTHS[ctx.tier]), part, None, 4):
        ctx.states += 1
        ctx.transitions += 2
        ctx.traces += 1
        most = cost.most((s,))
        if cost.lines(f, (s,), most) <= most and cost.seconds(f, (s,)) < cost.SECONDS:
            continue
        ctx.outcomes["measured again"] += 1
        got = cost.prompt(f, s)
        if got != "promptly":
            ctx.fail(f"cost.prompt(lambda s: {src}, {how})", "promptly", got, setup=SETUP, key=f"{src} @ {how}"[:300])
            bad += 1
            if bad > 1:
                return
    ctx.sample(f"{src} with s = {how}")


# ---- zones -----------------------------------------------------------------
AT = ["x.to_tz(k)", "x.to_tz(k).add(months=1)", "x.to_tz(k).start_of_day()", "x.to_tz(k).day_length()", "x.to_tz(k).round('day')", "x.to_tz(k).round('hour')", "x.to_tz(k).replace(hour=2)", "x.to_tz(k).is_ambiguous()", "str(x.to_tz(k))",
      "x.to_tz(k).py_datetime()", "l.assume_tz(k)", "l.assume_tz(k, disambiguate='earlier')", "l.assume_tz(k, disambiguate='raise')", "ZonedDateTime.parse_common_iso(str(x.to_tz(k)))", "x.to_tz(k) - x", "x.to_tz(k).subtract(days=1)", "hash(x.to_tz(k))"]
FNS = [(s, eval(f"lambda x, l, k: {s}", dict(vars(whenever)))) for s in AT]


def zone_at(ctx, z, us, setup=""):
    for u in us:
        off = z.offset(u // NS)
        loc = min(max(u + off * NS, 0), cal.LOCAL_MAX)
        for src, f in FNS:
            measure(ctx, src, f, ("x", "l", "k"), (mkI(u), mkL(loc), z.key), setup)


def run_zones(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = [*z.transitions_between(pool.s1(1800), pool.s1(2038))]
        tr = tr[:3] + tr[-3:]
        us = [x for t, b, a in tr for d in (abs(a - b) * NS,) for x in (t * NS - 1, t * NS, t * NS + d // 2, t * NS - d // 2)]
        zone_at(ctx, z, [*us, *(pool.EXTREME_UTC if ctx.thorough else (0, cal.LOCAL_MAX, cal.LOCAL_MAX // 2))])
    ctx.sample(f"{k}: {len(AT)} operations at {len(us)} moments, at most {getattr(ctx, 'most', 0)} lines")


def run_synth(ctx, specs):
    synth.install("quick")
    for sp in specs:
        z = synth.model(sp)
        us = [x for t, b, a in z.transitions_between(pool.s1(1960), pool.s1(2027))[-1:] for d in (abs(a - b) * NS,) for x in (t * NS - 1, t * NS, t * NS + d // 2, t * NS - d // 2)]
        zone_at(ctx, z, us, "from mc import synth; synth.install('quick')\n")
    ctx.sample(f"{sp}")


def run(ctx, shard):
    globals()["run_" + shard[0]](ctx, *shard[1:])
