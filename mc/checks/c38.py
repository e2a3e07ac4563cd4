"""The pure Python implementation and the extension give the same results"""
from __future__ import annotations

import concurrent.futures
import os
import pickle
import signal
import subprocess
import sys
from operator import eq

from .. import both, cal, core, pool, rustimpl
from ..cal import DAY_NS, HOUR_NS, NS
from ..both import IGNORED, REPEATED, SKIPPED
from . import c03, c04, c15, c16, c17, c37

ID = "C38"
TITLE = "Both implementations give the same results"
ASSUMPTIONS = [
    "the extension is built as for C30; if it can't be built here, nothing is decided (the evidence then shows 0 states)",
    "which exception is raised isn't compared (but for a skipped and a repeated time), and neither are programs that aren't well-typed for one of the two",
    "rounding (at most a nanosecond) of TimeDelta multiplied or divided by numbers, and SystemDateTime.add() without any units, aren't compared",
]
RULE = "states: pairs of operands and of reached values; transitions: steps compared; traces: results of the one implementation compared with the other"
PARTS = 48
CHUNK = 40_000
BUILD = None


def bounds(tier):
    return {"operands": {s: len(v) for s, v in both.POOL.items()}, "steps": "every operation on the operands; from every value reached, every operation" + (" with one further operand" if tier == "thorough" else " without further operands"),
            "texts": "every single edit of a text in every format" + (", and every pair of edits of some" if tier == "thorough" else "")}


# -- what is to be explored

ALPHABET = "0159 -+:.,TtZzPpYMWDHSs[]/_aEuGB\n\r\x00\t\xa0\u0660\u00b2\uff11\u2212\U0001d7d8"


def edits(s):
    for i in range(len(s) + 1):
        if i < len(s):
            yield s[:i] + s[i + 1:]
        for c in ALPHABET:
            yield s[:i] + c + s[i:]
            if i < len(s) and c != s[i]:
                yield s[:i] + c + s[i + 1:]


def seeds():
    out = {op.src: list(c16.SEEDS[k]) for k, op in c16.PARSE.items()}
    for k, ss in c37.DURATIONS.items():
        out.setdefault(f"{k}.parse_common_iso(s)", []).extend(ss)
    for k in ("Instant", "OffsetDateTime"):
        out.setdefault(f"{k}.parse_rfc2822(s)", []).extend(c17.SEEDS)
    return out


# -- many values, described by model integers

DELTAS = ("TimeDelta(nanoseconds=-1)", "TimeDelta(hours=-25, nanoseconds=5)", "DateDelta(months=1)", "DateDelta(years=-1, days=-1)", "DateTimeDelta(months=-1, days=-30, hours=-1)")
MODES = ("ceil", "floor", "half_even", "half_ceil", "half_floor")
INCREMENTS = (("hour", 1), ("hour", 3), ("minute", 15), ("second", 5), ("millisecond", 25), ("microsecond", 1), ("nanosecond", 125))
ROUND = [f"x.round({u!r}, increment={i}, mode={m!r}" for u, i in INCREMENTS for m in MODES]


def moments(kw, kind):
    """operations on a datetime of some kind"""
    out = ["x.date()", "x.time()", "x.replace(nanosecond=1%s)", "x.replace(day=29%s)", "x.replace(hour=2%s)", "x.replace_time(Time(2, 30)%s)", "x.replace_date(Date(2024, 3, 31)%s)"] if kind != "I" else []
    out += ["x.add(hours=1%s)", "x.subtract(milliseconds=1.5%s)"] + [f"x.{m}({d}%s)" for m in ("add", "subtract") for d in DELTAS if kind != "I" or d[0] == "T"]
    if kind != "I":
        out += [f"x.{m}(years={y}, months=1, weeks=-1, days={d}, minutes=7%s)" for m in ("add", "subtract") for y, d in ((1, 0), (-4, 31))]
    out = [o.replace("%s", ", " + kw if kw else "") for o in out]
    if kind in "ZS":
        out += [f"x.{r}, disambiguate={d!r})" for d in ("raise", "earlier", "later") for r in ("replace(hour=2", "replace_date(Date(2023, 10, 29)", "replace_time(Time(1, 30)", "add(days=1", "subtract(months=1")]
        # units that cancel out
        out += [f"x.{m}({us}, hours=1, disambiguate={d!r})" for m in ("add", "subtract") for d in ("raise", "earlier", "later") for us in ("years=1, months=-12", "weeks=-2, days=14", "days=0")]
        out += ["x.start_of_day()", "x.day_length()", "x.is_ambiguous()"]
    out += [r + (", " + kw if kw else "") + ")" for r in ROUND] + [f"x.round('day', mode={m!r}{', ' + kw if kw else ''})" for m in MODES if kind in "LZSO"]
    out += ["str(x)", "x.py_datetime()", "pickle.loads(pickle.dumps(x))", "pickle.dumps(x)"]
    if kind != "L":
        out += ["x.timestamp()", "x.timestamp_millis()", "x.timestamp_nanos()", "x.to_fixed_offset()", "x.to_fixed_offset(hours(-3) + minutes(30))", "x.to_tz('Asia/Kathmandu')", "x.to_tz('America/New_York')", "x.to_system_tz()",
                f"{KINDS[kind]}.parse_common_iso(str(x))", f"{KINDS[kind]}.from_py_datetime(x.py_datetime())"]
    if kind in "IO":
        out += ["x.format_rfc3339()", "x.format_rfc2822()", "x.parse_rfc3339(x.format_rfc3339())", "x.parse_rfc2822(x.format_rfc2822())"]
    if kind == "L":
        out += ["x.assume_utc()", "x.assume_fixed_offset(-5)", "LocalDateTime.parse_common_iso(str(x))"] + [f"x.assume_{z}disambiguate={d!r})" for z in ("tz('Europe/Dublin', ", "tz('America/Sao_Paulo', ", "system_tz(") for d in ("raise", "earlier", "later", "compatible")]
    if kind == "O":
        out += ["OffsetDateTime.strptime(x.local().py_datetime().isoformat() + '+0130', '%Y-%m-%dT%H:%M:%S%z')"]
    return [(o, "x") for o in dict.fromkeys(out)]


KINDS = {"I": "Instant", "L": "LocalDateTime", "O": "OffsetDateTime", "Z": "ZonedDateTime", "S": "SystemDateTime"}
OPS = ["x + y", "x - y", "x == y", "x != y", "x < y", "x <= y", "x > y", "x >= y"]


STEPS = [{"hour": HOUR_NS, "minute": 60 * NS, "second": NS, "millisecond": 10**6, "microsecond": 1000, "nanosecond": 1}[u] * i for u, i in INCREMENTS]
# just around half of each of the increments
HALVES = sorted({k * s + (s + e) // 2 for s in STEPS for k in (0, 1, 6, 7) for e in (-3, -2, -1, 0, 1, 2, 3)})


def spread(xs, n):
    return xs[:: max(1, len(xs) // n)]


def grids(tier):
    """(operands, programs), each a product"""
    big = tier == "thorough"
    utc = pool.BOUNDARY_UTC + pool.EXTREME_UTC
    # moments: every pattern of decimals at many days
    fracs = sorted({*c15.FRACS[::1 if big else 16], 0, 1, 999, 1000, 499_999_999, 500_000_000, 500_000_001, 999_999_999})
    utc += [cal.days(y, m, d) * DAY_NS + h * HOUR_NS + f for k, f in enumerate(fracs) for y, m, d, h in ((1969, 12, 31, 23), (2024, 2 + k % 11, 28, k % 24))]
    edges = {}
    for k in (pool.FEATURED if big else pool.FEATURED[:10]):
        z = pool.zone(k)
        tr = pool.transitions(z)
        edges[k] = sorted({u for u in pool.edge_instants(z, tr if big else [*spread(tr, 12), *pool.recent(z)[-12:]]) if 0 <= u <= cal.LOCAL_MAX})
    paris = pool.zone("Europe/Paris")
    own = sorted(set(pool.edge_instants(paris, [*spread(pool.transitions(paris), 200 if big else 30)])))
    half = [cal.days(2024, 3, 30) * DAY_NS + h for h in HALVES]
    for mk in ("I", "L", "S"):
        yield [[(mk, u) for u in half]], [(r + ")", "x") for r in ROUND]
    yield [[("O", u, 3600) for u in half]], [(r + ", ignore_dst=True)", "x") for r in ROUND]
    yield [[("Z", "America/St_Johns", u) for u in half]], [(r + ")", "x") for r in ROUND]
    yield [[("T", h % DAY_NS) for h in HALVES]], [(r + ")", "x") for r in ROUND]
    yield [[("TD", h * s) for h in HALVES for s in (1, -1)]], [(r + ")", "x") for r in ROUND]
    yield [[("I", u) for u in utc]], moments("", "I")
    yield [[("L", u) for u in utc + own]], moments("ignore_dst=True", "L")
    yield [[("O", u, o) for i, u in enumerate(utc) for o in (pool.OFFSETS if big else (pool.OFFSETS[i % len(pool.OFFSETS)], 3600))]], moments("ignore_dst=True", "O")
    yield [[("S", u) for u in utc + own]], moments("", "S")
    for k, us in edges.items():
        yield [[("Z", k, u) for u in us + utc[::1 if big else 9]]], moments("", "Z")
    # zones
    for k in pool.keys():
        z = pool.zone(k)
        tr = pool.transitions(z)
        tr = tr if big else [*tr[:6], *spread(tr, 12), *tr[-4:]]
        yield [[("I", u) for u in sorted({*pool.edge_instants(z, tr)}) if 0 <= u <= cal.LOCAL_MAX], [("=", k)]], [("x.to_tz(k)", "x, k")]
        yield [[("L", u) for u in sorted({*pool.edge_locals(z, tr)}) if 0 <= u <= cal.LOCAL_MAX], [("=", k)]], [(f"x.assume_tz(k, disambiguate={d!r})", "x, k") for d in ("raise", "earlier", "later", "compatible")]
    # dates
    step = 1 if big else 5
    for n in range(0, cal.NDAYS, 60_000):
        yield [[("D", d) for d in range(n, min(cal.NDAYS, n + 60_000), step)]], [("(x, x.day_of_week(), x.year_month(), x.month_day(), str(x))", "x"), ("x.add(months=1)", "x"), ("x.subtract(years=1, days=1)", "x")]
    days = sorted({cal.days(y, m, d) for y in (1, 4, 1900, 1999, 2000, 2023, 2024, 2100, 9998, 9999) for m, d in ((1, 1), (1, 31), (2, 28), (3, 1), (4, 30), (8, 31), (12, 31))} | {cal.days(2024, 2, 29), cal.days(2000, 2, 29)})
    yield [[("D", d) for d in days], [("D", d) for d in days]], [(o, "x, y") for o in (*OPS[1:], "x.days_since(y)", "x.days_until(y)")]
    yield [[("D", d) for d in days], [("=", n) for n in (*range(-1300, 1301, 1 if big else 7), -119_987, 119_987)]], [("x.add(months=n)", "x, n"), ("x.subtract(years=n)", "x, n"), ("x.add(days=n, months=-n)", "x, n"), ("x.subtract(weeks=n, days=1)", "x, n")]
    # deltas
    td = c03.values(tier)
    td = spread(td, 700 if big else 240)
    for part in pool.chunk(td, 6):
        yield [[("TD", v) for v in part], [("TD", v) for v in td]], [(o, "x, y") for o in (*OPS, "x / y", "x // y", "x % y")]
    one = c03.values("thorough") + c03.POWERS
    yield [[("TD", v) for v in one]], [(o, "x") for o in ("str(x)", "-x", "abs(x)", "bool(x)", "x.in_hrs_mins_secs_nanos()", "x.in_hours()", "x.in_minutes()", "x.in_seconds()", "x.in_milliseconds()", "x.in_microseconds()", "x.in_days_of_24h()", "x.in_nanoseconds()",
                                       "x.py_timedelta()", "TimeDelta.from_py_timedelta(x.py_timedelta())", "TimeDelta.parse_common_iso(x.format_common_iso())", "x.format_common_iso()", *(r + ")" for r in ROUND))]
    yield [[("TD", v) for v in one], [("=", n) for n in c03.INTS]], [("x * n", "x, n"), ("n * x", "x, n"), ("x // n" if 0 else "x == n", "x, n")]
    dd = [("DD", s * m, s * d) for m in (0, 1, 11, 12, 13, 25, 1200, 119_987, 119_988) for d in (0, 1, 6, 7, 8, 31, 365, 3_652_058, 3_652_059) for s in (1, -1)]
    dtd = [("DTD", s * m, s * d, s * t) for m in (0, 1, 12, 25, 119_988) for d in (0, 1, 7, 31, 3_652_059) for t in c04.TT for s in (1, -1)]
    for xs, us in ((dd, ("x.in_months_days()", "x.in_years_months_days()")), (dtd, ("x.in_months_days_secs_nanos()", "x.date_part()", "x.time_part()"))):
        yield [xs], [(o, "x") for o in ("str(x)", "x.format_common_iso()", "type(x).parse_common_iso(str(x))", "-x", "abs(x)", "bool(x)", "pickle.dumps(x)", *us)]
        yield [xs, [("=", n) for n in (0, 1, -1, 2, -3, 7, 1000, 10**6)]], [("x * n", "x, n"), ("n * x", "x, n")]
    yield [dd, dd], [(o, "x, y") for o in OPS[:4]]
    yield [spread(dtd, 160), spread(dtd, 160)], [(o, "x, y") for o in OPS[:4]]
    yield [dd, [("TD", v) for v in spread(one, 60)]], [(o, "x, y") for o in ("x + y", "x - y", "y + x", "y - x")]
    # times
    tods = sorted({h * HOUR_NS + e for h in range(25) for e in (-NS, -1, 0, 1, 30 * 60 * NS, HOUR_NS // 2 + 1, 999_999_999, 12 * 60 * NS + 345_678_901)} | {12 * HOUR_NS + f for f in fracs} | {DAY_NS - 1 - f for f in fracs})
    tods = [t for t in tods if 0 <= t < DAY_NS]
    yield [[("T", t) for t in tods]], [(o, "x") for o in ("str(x)", "x.py_time()", "Time.parse_common_iso(str(x))", "Time.from_py_time(x.py_time())", "x.on(Date(9999, 12, 31))", "x.replace(hour=0)", "x.replace(nanosecond=5)", *(r + ")" for r in ROUND))]
    yield [[("T", t) for t in tods[::9]], [("T", t) for t in tods[::7]]], [(o, "x, y") for o in OPS[2:]]
    # numbers
    whole = sorted({s * (b**k + e) for b in (2, 10) for k in range(0, 70, 1 if big else 3) for e in (-1, 0, 1) for s in (1, -1)} | {-62_135_596_800 * 10**k + e for k in (0, 3, 9) for e in (-1, 0, 1)} | {253_402_300_799 * 10**k + e for k in (0, 3, 9) for e in (0, 1, 10**k)})
    yield [[("=", n) for n in whole]], [(f"{c}.from_timestamp{u}(n{kw})", "n") for c, kw in (("Instant", ""), ("OffsetDateTime", ", offset=-5, ignore_dst=True"), ("ZonedDateTime", ", tz='America/New_York'"), ("SystemDateTime", "")) for u in ("", "_millis", "_nanos")]
    yield [[("=", n) for n in whole]], [(f"{u}(n)", "n") for u in c37.UNITS + c37.DATES] + [(f"{c}({u}=n, {v}=-n)", "n") for c, u, v in (("TimeDelta", "hours", "minutes"), ("DateDelta", "years", "months"), ("DateTimeDelta", "days", "nanoseconds"), ("DateTimeDelta", "weeks", "hours"))]


def shards(tier):
    global BUILD
    try:
        BUILD = rustimpl.build(os.path.dirname(core.REPO_SRC.rstrip("/")), core.REPO_SRC)
    except rustimpl.CannotBuild as e:
        print(f"NOTE: the extension can't be built here, nothing is decided: {str(e)[-400:]}")
        return [None]
    progs = both.programs()
    out = [("first", progs[p::PARTS]) for p in range(PARTS)]
    steps: dict = {}
    reps: dict = {}
    for ss, rs in useful():
        for t, st in ss:
            if tier == "thorough" or st[2] is None:
                steps.setdefault(t, []).append(st)
        for k, rep in rs.items():
            reps.setdefault(k, rep)
    for t in sorted(both.WHENEVER):
        rs = [rep for k, rep in reps.items() if k[0] == t]
        n = max(1, CHUNK * (5 if tier == "thorough" else 1) // max(1, len(steps.get(t, ()))))
        out += [("second", rs[i:i + n], steps.get(t, [])) for i in range(0, len(rs), n)]
    size = CHUNK * (4 if tier == "thorough" else 1)
    part, much = [], 0
    for operands, progs in grids(tier):
        rest = len(progs)
        for o in operands[1:]:
            rest *= len(o)
        n = max(1, size // rest)
        for i in range(0, len(operands[0]), n):
            piece = operands[0][i:i + n]
            part.append(([piece, *operands[1:]], progs))
            much += len(piece) * rest
            if much > size / 2:
                out.append(("wide", part))
                part, much = [], 0
    out.append(("wide", part))
    part, much = [], 0
    for src, ss in seeds().items():
        for s in ss:
            ts = list(dict.fromkeys([s, *edits(s)]))
            part.append((src, ts))
            much += len(ts)
            if much > size / 2:
                out.append(("texts", part))
                part, much = [], 0
    out.append(("texts", part))
    return out


# -- comparing

def ask(impl, job, n=None):
    """what one of the implementations gives"""
    p = subprocess.run([sys.executable, "-B", "-m", "mc.both"], input=pickle.dumps((job, n)), capture_output=True, cwd=core.VERIF, timeout=880,
                       env={**os.environ, "VERIF_REPO_SRC": impl, "PYTHONPATH": ""})
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-1500:])
    return pickle.loads(p.stdout)


def useful():
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 1) as ex:
        return [*ex.map(lambda p: ask(core.REPO_SRC, ("useful", p, 16)), range(16))]


def differ(a, b):
    if a == b or a == IGNORED or b == IGNORED:
        return False
    if a > 3 or b > 3:
        return True
    return {a, b} == {SKIPPED, REPEATED}


SCRIPT = '''# Both implementations give the same results (C38)
# run with: /opt/venv/bin/python -B (builds the extension from the repository's src/)
import os, sys
os.environ["TZ"] = "Europe/Paris"
sys.dont_write_bytecode = True
sys.path[:0] = [{verif!r}, {src!r}]
from mc import both, core
from mc.checks import c38
build = c38.rustimpl.build(os.path.dirname(core.REPO_SRC.rstrip("/")), core.REPO_SRC)
job = {job!r}
a, b = c38.ask(core.REPO_SRC, job), c38.ask(build, job)
(expr, one), (_, two) = c38.ask(core.REPO_SRC, job, {n}), c38.ask(build, job, {n})
print("expression  :", expr)
print("pure Python :", one)
print("extension   :", two)
sys.exit(1 if len(a) != len(b) or c38.differ(a[{n}], b[{n}]) else 0)
'''


def run(ctx, job):
    if job is None:
        ctx.sample("not built")
        return
    signal.alarm(0 if ctx.tier == "thorough" else 600)
    a, b = ask(core.REPO_SRC, job), ask(BUILD, job)
    if len(a) != len(b):
        raise RuntimeError(f"{len(a)} outcomes and {len(b)}")
    ctx.states += len({(job[0], i) for i in range(len(a))}) if job[0] != "second" else len(job[1])
    ctx.transitions += len(a)
    ctx.traces += len(a)
    ctx.outcomes["refused by both"] += sum(1 for x, y in zip(a, b) if x == y and IGNORED < x <= 3)
    ctx.outcomes["values"] += sum(1 for x, y in zip(a, b) if x == y and x > 3)
    ctx.outcomes["not well-typed for one of them"] += sum(1 for x, y in zip(a, b) if IGNORED in (x, y))
    if not ctx.samples:
        ctx.sample(f"{job[0]}: {len(a)} steps")
    if all(map(eq, a, b)):
        return
    heads = {} if job[0] != "second" else {i: a[i] == b[i] for i in range(0, len(a), len(job[2]) + 1)}
    for n, (x, y) in enumerate(zip(a, b)):
        if n in heads or not differ(x, y):
            continue
        if heads and not heads[n - n % (len(job[2]) + 1)]:
            continue  # the step before is what differs
        small, k = alone(job, n)
        (expr, one), (_, two) = ask(core.REPO_SRC, small, k), ask(BUILD, small, k)
        ctx.fails.append(dict(key=expr, setup="", expr=expr, expected=f"the same in both implementations, but pure Python gives {one}", got=f"{two} in the extension", why="",
                              script=SCRIPT.format(verif=core.VERIF, src=core.REPO_SRC, job=small, n=k)))
        if len(ctx.fails) >= 3:
            return


def alone(job, n):
    """a smaller job with the same step"""
    if job[0] == "second":
        i, j = divmod(n, len(job[2]) + 1)
        return ("second", [job[1][i]], [job[2][j - 1]]), 1
    if job[0] == "texts":
        for src, ts in job[1]:
            if n < len(ts):
                return ("texts", [(src, [ts[n]])]), 0
            n -= len(ts)
    if job[0] == "wide":
        return job, n
    for p in job[1]:
        k = 1
        for t in p[2]:
            k *= len(both.POOL[t])
        if n < k:
            return ("first", [p]), n
        n -= k
