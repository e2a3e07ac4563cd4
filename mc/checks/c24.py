from __future__ import annotations

import copy
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import time
import zlib
import zoneinfo

import whenever
from whenever import *  # noqa: F403
from whenever import MonthDay, YearMonth

from .. import hist, sched
from ..core import REPO_SRC, VERIF, call
from ..hist import PARIS, POOL, text
from ..sched import INF
from ..vals import lit, view

ID = "C24"
TITLE = "Values are immutable and results never depend on history or threads"
ASSUMPTIONS = ["C-implemented code (datetime, zoneinfo, re) is atomic between scheduling points", "private attributes (leading underscore) are not part of the interface",
               "system zone and clock are held constant, as the documentation names them as inputs"]
JOBS = os.cpu_count() or 1
RULE = ("states: distinct programs, schedules, histories and attribute operations; transitions: operations executed; traces: results compared with the result of the same operation run alone")


def bounds(tier):
    t = tier == "thorough"
    return {"immutability": "every name of every type plus new names, set and delete, for every value of the pool",
            "global histories": f"{8 if t else 4} orders of the whole program list, each in a fresh process with its own hash seed and cache clearing",
            "operands in turn": f"every program with every pair of its combinations of operands in turn (of at most {AGAIN[tier]} combinations), both ways",
            "operation pairs": "all ordered pairs from a restored module state" + ("; all triples over the core list" if t else ""),
            "threads": f"all schedules of 2 threads x 1 operation with 1 preemption{', at line and bytecode granularity, and with 2 at line granularity' if t else f' at line granularity, and with 2 preemptions on a grid of at most {LIMIT} cut points per operation'}, all ordered pairs of {len(OPS)} operations x 2 variants; every program with itself, with operands that give different results, 1 preemption",
            "in the middle": "the second of each of these pairs run by the same thread before each line of the first, as a signal handler or finalizer would"}


def shards(tier):
    k = 8 if tier == "thorough" else 4
    n = 48 if tier == "thorough" else 24
    return [("attrs",), *[("hist", i) for i in range(1, k)], *[("pairs", i, 8) for i in range(8)], *[("again", i, 32) for i in range(32)], *[("threads", i, n) for i in range(n)], *[("every", i, 64) for i in range(64)],
            *([("fine", i, 48) for i in range(48)] + [("triples", i, 16) for i in range(16)] if tier == "thorough" else [])]


def init_worker():
    os.environ["TZ"] = PARIS
    time.tzset()


# ---- immutability ------------------------------------------------------
def run_attrs(ctx):
    names = sorted({n for t in hist.c21.LIB for n in dir(getattr(whenever, t)) if not n.startswith("_")} | {"foo", "tzinfo", "fold", "microsecond"})
    for sort in hist.c21.LIB:
        for v in POOL[sort]:
            before = hist.snap(v)
            h = call(hash, v)
            for n in names:
                for how in ("set", "del", "object"):
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.traces += 1
                    src = {"set": "setattr({}, {!r}, 1)", "del": "delattr({}, {!r})", "object": "object.__setattr__({}, {!r}, 1)"}[how].format("x", n)
                    e = call(eval, src, {"x": v})
                    if not isinstance(e, (AttributeError, TypeError)):
                        ctx.fail(src, "AttributeError", repr(e), setup=f"x = {lit(v)}\n", key=f"{sort}: {src}")
                    if hist.snap(v) != before:
                        ctx.fail(f"({src.replace('setattr', 'getattr')}, repr(x))", before[1], repr(v), setup=f"x = {lit(v)}\n", key=f"{sort} changed: {src}")
            for f in (lambda x: [x] * 2, lambda x: {x: 1} if type(h) is int else 0, copy.copy, copy.deepcopy, repr, str):
                ctx.transitions += 1
                f(v)
                if hist.snap(v) != before or call(hash, v) != h and type(h) is int:
                    ctx.fail("x", before[1], repr(v), setup=f"x = {lit(v)}\n", key=f"{sort} changed by use")
        for cls_attr in ("MIN", "MAX", "ZERO", "MIDNIGHT", "NOON"):
            c = getattr(getattr(whenever, sort), cls_attr, None)
            if c is not None:
                ctx.states += 1
                if not isinstance(call(setattr, c, "year", 1), (AttributeError, TypeError)):
                    ctx.fail(f"setattr({sort}.{cls_attr}, 'year', 1)", "AttributeError", "assigned")
    ctx.sample(f"{len(names)} attribute names x 12 types")


# ---- histories ---------------------------------------------------------
def start(k, out, show=None):
    env = {**os.environ, "PYTHONHASHSEED": str(k), "VERIF_REPO_SRC": REPO_SRC}
    return subprocess.Popen([sys.executable, "-B", "-m", "mc.hist", str(k), out] + ([str(show)] if show is not None else []), cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


HSCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C24: the program
    {src}  with  {vals}
gives different results in two processes that ran the same programs in another
order and with another hash seed."""
import subprocess, os, sys
r = []
for k in (0, {k}):
    p = subprocess.run([sys.executable, "-B", "-m", "mc.hist", str(k), os.devnull, "{i}"], cwd={verif!r}, env={{**os.environ, "PYTHONHASHSEED": str(k)}}, capture_output=True, text=True)
    print("order", k, ":", p.stdout.strip() or p.stderr[-300:])
    r.append(p.stdout)
sys.exit(0 if r[0] == r[1] else 1)
'''


def run_hist(ctx, k):
    with tempfile.TemporaryDirectory(prefix="c24-") as d:
        ps = [start(j, f"{d}/{j}") for j in (0, k)]
        for p in ps:
            _, err = p.communicate()
            if p.returncode:
                raise RuntimeError(err[-1500:])
        (a, pa, _), (b, pb, _) = (pickle.load(open(f"{d}/{j}", "rb")) for j in (0, k))
        for i, what, was, now, src, vals in pa + pb:
            ctx.fail(src, f"unchanged: {was}"[:300], f"{what}: {now}"[:300], key=f"{src} @ {vals}: {what}")
            ctx.fails[-1]["script"] = OSCRIPT.format(src=REPO_SRC, verif=VERIF, prog=src, what=what, vals=vals, i=i, k=k)
        ctx.states += len(b)
        ctx.transitions += len(a) + len(b)
        ctx.traces += len(b)
        progs = None
        if not pa and not pb:
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    progs = progs or list(hist.compiled())
                    src, _, vals = progs[i]
                    got = []
                    for j in (0, k):
                        p = start(j, os.devnull, i)
                        got.append(p.communicate()[0].strip())
                    ctx.fail(src, got[0], got[1], key=f"{src} @ {lit(vals)}", why=f"orders 0 and {k} of the program list disagree")
                    ctx.fails[-1]["script"] = HSCRIPT.format(src=src, vals=lit(vals), k=k, i=i, verif=VERIF)
                    if len(ctx.fails) > 3:
                        break
    ctx.sample(f"order {k}: {len(b)} programs x values in a fresh process, hash seed {k}")


AGAIN = {"quick": 24, "thorough": 150}


def run_again(ctx, i, n):
    """what a program gave for other operands makes no difference"""
    progs = {}
    for _, src, f, vals in hist.chosen(i, n, 1 if ctx.thorough else 6, AGAIN[ctx.tier]):
        progs.setdefault(src, []).append((f, vals))
    for src, combos in progs.items():
        combos = combos[: AGAIN[ctx.tier]]
        wants = [text(*c) for c in combos]
        for a, (f, x) in enumerate(combos):
            for b in range(a):
                y = combos[b][1]
                ctx.states += 1
                ctx.transitions += 2
                ctx.traces += 2
                for k, v in ((a, x), (b, y)):
                    if text(f, v) != wants[k]:
                        names = ", ".join(f.__code__.co_varnames[: f.__code__.co_argcount])
                        one, two = (", ".join(map(lit, u)) + "," * bool(u) for u in (combos[a + b - k][1], v))
                        ctx.fail(f"hist.after(lambda {names}: {src}, ({one}), ({two}))", wants[k], text(f, v), key=f"{src} @ {two} after {one}",
                                 setup=f"import os, time\nos.environ['TZ'] = {PARIS!r}; time.tzset()\nimport copy, pickle, datetime, zoneinfo, whenever\nfrom mc import hist\nfrom whenever import *\nfrom whenever import YearMonth, MonthDay, SkippedTime, RepeatedTime, InvalidOffset\n")
                        if len(ctx.fails) > 3:
                            return
        if len(combos) > 1:
            src0 = src
    ctx.sample(f"{src0}: every pair of its operands in turn")


OSCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C24: {what}
program: {prog}  with  {vals}"""
import subprocess, os, sys, tempfile, pickle
d = tempfile.mkdtemp()
bad = []
for k in (0, {k}):
    subprocess.run([sys.executable, "-B", "-m", "mc.hist", str(k), d + "/o"], cwd={verif!r}, env={{**os.environ, "PYTHONHASHSEED": str(k)}})
    bad += pickle.load(open(d + "/o", "rb"))[1]
os.remove(d + "/o"); os.rmdir(d)
for b in bad: print(b)
sys.exit(1 if bad else 0)
'''

CORE = """
{Z}.add(days=1)|{Z}.add(months=1, hours=2)|{Z} + TimeDelta(hours=1)|str({Z})|repr({Z})|{Z} == {O}|{Z} == {I}|{I} == {Z}|{Z}.exact_eq({Z2})|{Z}.to_tz('UTC')|{Z}.to_tz('America/New_York')|{Z}.to_tz('Europe/Paris')
{Z}.to_fixed_offset()|{O}.to_tz('Europe/Paris')|{I}.to_tz('Europe/Paris')|{S}.to_tz('Europe/Paris')|{Z}.to_system_tz()|{I}.to_system_tz()|{Z}.instant()|{O}.instant()|{S}.instant()|{Z}.local()|{O}.local()|{S}.local()
{Z}.date()|{Z}.time()|{Z}.offset|{O}.offset|{S}.offset|{Z}.tz|{Z}.is_ambiguous()|{S}.is_ambiguous()|{Z}.day_length()|{S}.day_length()|{Z}.start_of_day()|{S}.start_of_day()
{Z}.round('hour')|{Z}.round('day')|{O}.round('hour', ignore_dst=True)|{I}.round('hour')|{L}.round('hour')|{S}.round('minute', 15)|{Z}.replace(hour=3)|{Z}.replace(disambiguate='later')|{S}.replace(hour=3)|{O}.replace(hour=3, ignore_dst=True)
{Z}.replace_time(Time(2, 30))|{Z}.replace_date(Date(2024, 10, 27))|{S}.replace_time(Time(2, 30))|{L}.assume_tz('Europe/Paris')|{L}.assume_tz('Europe/Paris', disambiguate='later')|{L}.assume_tz('Europe/Amsterdam')|{L}.assume_system_tz(disambiguate='later')
{L}.assume_utc()|{L}.assume_fixed_offset(1)|{L}.add(months=1)|{L}.add(hours=1, ignore_dst=True)|{L} == {L2}|str({L})|{O} + {T} if 0 else str({O})|{O}.add(hours=1, ignore_dst=True)|{O} - {Z}|{Z} - {S}|{I} - {O}
{S}.add(days=1)|{S} + TimeDelta(hours=1)|str({S})|{S} == {Z}|{S}.exact_eq({S2})|str({I})|{I}.add(seconds=1)|{I}.timestamp_nanos()|{I}.timestamp()|{I}.format_rfc2822()|{I}.format_rfc3339()|{O}.format_rfc2822()
ZonedDateTime.parse_common_iso(str({Z}))|OffsetDateTime.parse_common_iso(str({O}))|Instant.parse_common_iso(str({I}))|LocalDateTime.parse_common_iso(str({L}))|SystemDateTime.parse_common_iso(str({S}))|Date.parse_common_iso(str({D}))|Time.parse_common_iso(str({C}))
pickle.loads(pickle.dumps({Z}))|pickle.loads(pickle.dumps({S}))|pickle.loads(pickle.dumps({O}))|{Z}.py_datetime()|{O}.py_datetime()|ZonedDateTime.from_py_datetime({Z}.py_datetime())|OffsetDateTime.from_py_datetime({O}.py_datetime())
{D} + DateDelta(months=1)|{D} - {D2}|{D}.add(days=1)|{D}.at({C})|{D}.day_of_week()|{D}.days_until({D2})|{D}.year_month()|{D}.month_day()|{C}.on({D})|{C}.round('minute')|{C} < {C2}|{T} + {T2}|{T} // {T2}|{T} * 2|{T} == {T2}|str({T})|{T}.round('hour')
{T} + {N}|{N} * 2|{N} == {N2}|str({N})|-{N}|{X} + {N}|{X} == {X2}|str({X})|{X} * -1|{X}.date_part()|TimeDelta.parse_common_iso(str({T}))|DateDelta.parse_common_iso(str({N}))|DateTimeDelta.parse_common_iso(str({X}))
zoneinfo.ZoneInfo.clear_cache()|ZonedDateTime(2023, 10, 29, 2, 30, tz='Europe/Paris')|ZonedDateTime(2023, 10, 29, 2, 30, tz='Europe/Amsterdam', disambiguate='later')|ZonedDateTime.from_timestamp(1698539400, tz='Europe/Paris')|SystemDateTime(2023, 10, 29, 2, 30)
Instant.from_timestamp(1698539400)|OffsetDateTime.from_timestamp(1698539400, offset=1, ignore_dst=True)|Instant.parse_rfc2822('Sun, 29 Oct 2023 00:30:00 +0000')|Date(2023, 10, 29)|Time(2, 30)|TimeDelta(hours=2)|YearMonth(2023, 10).on_day(29)|MonthDay(2, 29).in_year(2024)
ZonedDateTime.parse_common_iso('2023-10-29T02:30:00+02:00[Europe/Paris]')|ZonedDateTime.parse_common_iso('2023-10-29T02:30:00+01:00[Europe/Paris]')|ZonedDateTime.parse_common_iso('bad')|ZonedDateTime(2023, 3, 26, 2, 30, tz='Europe/Paris', disambiguate='raise')
""".replace("\n", "|").strip("|").split("|")


def operands(i):
    """two variants of equal or nearly equal values that are not the same, and one of values with nothing in common with them"""
    if i == 2:
        z = ZonedDateTime(2021, 7, 4, 15, 45, 12, nanosecond=700_000_900, tz="Asia/Tokyo")
        return dict(
            Z=z, Z2=z.to_tz("Australia/Lord_Howe").add(hours=4000), O=z.to_fixed_offset(7).add(hours=1, ignore_dst=True), I=z.instant().add(hours=77), S=z.to_system_tz(), S2=z.to_system_tz().add(seconds=99), L=LocalDateTime(2019, 3, 31, 2, 20, 7),
            L2=LocalDateTime(2018, 3, 1, 22, 20, 7), D=Date(2019, 12, 31), D2=Date(2016, 2, 29), C=Time(22, 59, 48, nanosecond=9), C2=Time(1, 59, 48), T=TimeDelta(hours=-31, minutes=40, nanoseconds=90), T2=TimeDelta(minutes=61),
            N=DateDelta(years=-1, days=-12), N2=DateDelta(weeks=3), X=DateTimeDelta(years=3, hours=4), X2=DateTimeDelta(days=-6, minutes=-1))
    later = ["earlier", "later"][i]
    z = ZonedDateTime(2023, 10, 29, 2, 30, nanosecond=5, tz=PARIS, disambiguate=later)
    return dict(
        Z=z, Z2=z.instant().to_tz(["Europe/Amsterdam", PARIS][i]), O=z.to_fixed_offset([2, 0][i]), I=z.instant(), S=z.to_system_tz(), S2=z.to_system_tz().add(seconds=i), L=LocalDateTime(2023, 10, 29, 2, 30, nanosecond=5 + i),
        L2=LocalDateTime(2023, 10, 29, 2, 30, nanosecond=5), D=Date(2024, 2, 28 + i), D2=Date(2023, 2, 28), C=Time(2, 30, nanosecond=i), C2=Time(2, 30, nanosecond=1), T=TimeDelta(hours=5, nanoseconds=i), T2=TimeDelta(hours=5),
        N=DateDelta(months=1, days=i), N2=DateDelta(months=1), X=DateTimeDelta(months=1, nanoseconds=i), X2=DateTimeDelta(months=1))


ENV = dict(vars(whenever), pickle=pickle, zoneinfo=zoneinfo)
VARS = ("Z", "Z2", "O", "I", "S", "S2", "L", "L2", "D", "D2", "C", "C2", "T", "T2", "N", "N2", "X", "X2")


class Instance:
    def __init__(self, src, i, ops):
        self.src = src.format(**{v: f"{v}" for v in VARS})
        self.i = i
        self.ops = [(v, ops[v]) for v in VARS if "{" + v + "}" in src]
        self.fn = eval(f"lambda {', '.join(v for v, _ in self.ops)}: {self.src}", ENV)
        self.vals = tuple(x for _, x in self.ops)

    def run(self):
        return text(self.fn, self.vals)

    def setup(self, p=""):
        return "".join(f"{v} = {lit(x)}\n" for v, x in self.ops)


def make(templates, variants=(0, 1)):
    env = [operands(0), operands(1), operands(2)]
    out = []
    for s in templates:
        for i in variants:
            if i and "{" not in s:
                continue
            out.append(Instance(s, i, env[i]))
    return out


PSCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C24: an operation gives another result
after other operations."""
import sys, os, time
sys.dont_write_bytecode = True
sys.path[:0] = [{src!r}, {verif!r}]
os.environ["VERIF_REPO_SRC"] = {src!r}
os.environ["TZ"] = "Europe/Paris"; time.tzset()
from mc.checks import c24
from mc import sched
st = sched.State()
seq = {seq!r}
env = [c24.operands(i) for i in range(3)]
ops = [c24.Instance(s, i, env[i]) for s, i in seq]
st.restore()
alone = ops[-1].run()
st.restore()
for o in ops:
    got = o.run()
    print(o.src, "->", got)
print("alone:", alone)
sys.exit(0 if got == alone else 1)
'''


def histories(ctx, tmpl, i, n, depth):
    init_worker()
    st = sched.State()
    ops = make(tmpl)
    raw = [(s, v) for s in tmpl for v in (0, 1) if not (v and "{" not in s)]
    base = []
    for o in ops:
        st.restore()
        base.append(o.run())
    snaps = [[hist.snap(v) for v in o.vals] for o in ops]
    idx = range(len(ops))
    for pre in itertools.islice(itertools.product(idx, repeat=depth - 1), i, None, n):
        ctx.states += 1
        for j in idx:
            st.restore()
            for p in pre:
                ops[p].run()
            got = ops[j].run()
            ctx.transitions += depth
            ctx.traces += 1
            if got != base[j]:
                seq = [raw[p] for p in pre] + [raw[j]]
                ctx.fail(ops[j].src, base[j], got, key="; ".join(ops[p].src for p in pre) + "; then " + ops[j].src)
                ctx.fails[-1]["script"] = PSCRIPT.format(src=REPO_SRC, verif=VERIF, seq=seq)
    for o, s in zip(ops, snaps):
        if [hist.snap(v) for v in o.vals] != s:
            ctx.fail(o.src, repr(s), repr([hist.snap(v) for v in o.vals]), key="operand changed " + o.src, setup=o.setup())
    ctx.sample(f"{len(ops)} operations, all histories of length {depth}")


def run_pairs(ctx, i, n):
    histories(ctx, CORE, i, n, 2)


def run_triples(ctx, i, n):
    histories(ctx, CORE[::3] + ["zoneinfo.ZoneInfo.clear_cache()"], i, n, 3)


# ---- threads -----------------------------------------------------------
OPS = """{Z}.add(days=1)|{Z} + {T}|str({Z})|ZonedDateTime.parse_common_iso(str({Z}))|{Z} == {O}|{Z}.to_tz('America/New_York')|{Z}.to_system_tz()|{Z}.round('hour')|{Z}.start_of_day()|{Z}.replace(hour=3)|{L}.assume_tz('Europe/Paris', disambiguate='later')
{L}.assume_system_tz()|{D}.add(months=1)|{D} - {D2}|Date.parse_common_iso(str({D}))|{C}.round('minute')|{T}.round('hour')|str({T})|DateTimeDelta.parse_common_iso(str({X}))|{N} + {T}|{O}.add(hours=1, ignore_dst=True)|{O}.format_rfc2822()
OffsetDateTime.parse_common_iso(str({O}))|Instant.from_timestamp_nanos({I}.timestamp_nanos())|pickle.loads(pickle.dumps({Z}))|ZonedDateTime.from_py_datetime({Z}.py_datetime())|{S} + {T}|{S}.replace(hour=3)|{Z}.is_ambiguous()|{T} * 2|{I} - {Z}|hash({Z}) == hash({O})
{Z}.exact_eq({Z2})|{L}.add(hours=1, ignore_dst=True)|{I}.round('minute', 15)|{D}.at({C})|Instant.parse_rfc3339({I}.format_rfc3339())|TimeDelta(hours=1, nanoseconds={T}.in_nanoseconds())""".replace("\n", "|").split("|")

TSCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C24: two threads, one operation each,
switched only at the stated steps (thread, number of {unit}s); or the second in
the middle of the first, before the stated line."""
import sys, os, time
sys.dont_write_bytecode = True
sys.path[:0] = [{src!r}, {verif!r}]
os.environ["VERIF_REPO_SRC"] = {src!r}
os.environ["TZ"] = "Europe/Paris"; time.tzset()
from mc.checks import c24
from mc import sched
from mc.sched import INF
st = sched.State()
env = [c24.operands(i) for i in range(3)]
ops = [c24.Instance(s, i, env[i]) for s, i in {seq!r}]
alone = []
for o in ops:
    st.restore(); alone.append(o.run())
sc = sched.Scheduler({fine})
jobs = [(o.fn, o.vals) for o in ops]
for j in jobs: sc.steps(j)
st.restore()
plan = {plan!r}
got = [c24.shown(r) for r in (sc.run(jobs, plan) if isinstance(plan, list) else sched.Nested().run(jobs[0], plan, jobs[1]))]
for o, a, g in zip(ops, alone, got): print(o.src, "\\n  alone   :", a, "\\n  threaded:", g)
sys.exit(0 if got == alone else 1)
'''


def shown(r):
    def f():
        if isinstance(r, Exception):
            raise r
        return r

    return text(f, ())


def threads(ctx, i, n, fine):
    init_worker()
    st = sched.State()
    sc = sched.Scheduler(fine)
    ops = make(OPS, (0, 1, 2))
    raw = [(s, v) for s in OPS for v in (0, 1, 2)]
    ne = sched.Nested()
    base, steps, inside = [], [], []
    for o in ops:
        st.restore()
        base.append(o.run())
        sc.steps((o.fn, o.vals))
        st.restore()
        steps.append(sc.steps((o.fn, o.vals)))
        st.restore()
        inside.append(ne.steps((o.fn, o.vals)))
    pairs = []
    for a in range(0, len(ops), 3):
        for b in range(0, len(ops), 3):
            pairs.append((a, b + 1 + (base[b] == base[b + 1])))
            if a == b:
                pairs += [(a + 1, b), (a, b)] + [(a, b + 2), (a + 2, b)] * (base[a] == base[a + 1])
    # both orders of starting and both variants in either role occur
    for a, b in pairs[i::n]:
        A, B = ops[a], ops[b]
        jobs = [(A.fn, A.vals), (B.fn, B.vals)]
        cuts = plans(steps[a], steps[b], fine, ctx.thorough)
        for plan in cuts:
            st.restore()
            ra, rb = sc.run(jobs, plan)
            ctx.states += 1
            ctx.transitions += 2
            ctx.traces += 2
            for r, k in ((ra, a), (rb, b)):
                got = shown(r)
                if got != base[k]:
                    ctx.fail(ops[k].src, base[k], got, key=f"threads {A.src} || {B.src}: {ops[k].src}", why=f"schedule {plan}")
                    ctx.fails[-1]["script"] = TSCRIPT.format(src=REPO_SRC, verif=VERIF, seq=[raw[a], raw[b]], plan=plan, fine=fine, unit="bytecode" if fine else "line")
                    break
            else:
                continue
            break
        for k in range(0 if fine else inside[a]):
            st.restore()
            got = [shown(r) for r in ne.run(jobs[0], k, jobs[1])]
            ctx.states += 1
            ctx.transitions += 2
            ctx.traces += 2
            if got != [base[a], base[b]]:
                bad = got[0] == base[a]
                ctx.fail((A, B)[bad].src, base[(a, b)[bad]], got[bad], key=f"in the middle: {B.src} within {A.src}", why=f"before line {k}")
                ctx.fails[-1]["script"] = TSCRIPT.format(src=REPO_SRC, verif=VERIF, seq=[raw[a], raw[b]], plan=k, fine=fine, unit="line")
                if "Stuck" in got:
                    return
                break
    ctx.outcomes["stalls on locks"] += sc.stalls
    ctx.sample(f"{A.src} || {B.src}: {steps[a]} x {steps[b]} steps, {len(cuts)} schedules")


LIMIT = 40

ESCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C24: two threads run the program
    {prog}
with different operands, switched only at the stated steps (thread, number of lines);
or one runs it in the middle of itself, before the stated line."""
import sys, os, time
sys.dont_write_bytecode = True
sys.path[:0] = [{src!r}, {verif!r}]
os.environ["VERIF_REPO_SRC"] = {src!r}
os.environ["TZ"] = "Europe/Paris"; time.tzset()
from mc.checks import c24
sys.exit(c24.every({prog!r}, {combos!r}, {plan!r}))
'''


def every(prog, combos, plan):
    """what two threads give, and what each gives alone (for the replays)"""
    st = sched.State()
    sc = sched.Scheduler()
    (f, sorts), = [(f, sorts) for s, f, sorts in hist.functions() if s == prog]
    jobs = [(f, [*itertools.product(*(hist.POOL[s] for s in sorts))][k]) for k in combos]
    alone = []
    for j in jobs:
        st.restore()
        alone.append(text(*j))
    for j in jobs:
        sc.steps(j)
    st.restore()
    got = [shown(r) for r in (sc.run(jobs, plan) if isinstance(plan, list) else sched.Nested().run(jobs[0], plan, jobs[1]))]
    for j, a, g in zip(jobs, alone, got):
        print(prog, "with", lit(j[1]), "\n  alone:", a, "\n  now  :", g)
    return int(got != alone)


def run_every(ctx, i, n):
    """every program, in two threads with operands for which it gives different results"""
    st = sched.State()
    sc = sched.Scheduler()
    ne = sched.Nested()
    for src, f, sorts in [x for x in hist.functions() if zlib.crc32(x[0].encode("utf8", "surrogatepass")) % n == i]:
        picks = {}
        for k, vals in enumerate(itertools.product(*(hist.POOL[s] for s in sorts))):
            t = text(f, vals)
            picks.setdefault(t, (k, vals))
            if len(picks) >= (12 if ctx.thorough else 6):
                break
        # results first, then errors
        picks = sorted(picks.items(), key=lambda p: " " not in p[0])[: 4 if ctx.thorough else 2]
        if len(picks) == 1:
            picks *= 2
        for (want, (ka, a)), (other, (kb, b)) in itertools.permutations(picks, 2):
            jobs = [(f, a), (f, b)]
            for j in jobs:
                sc.steps(j)
            st.restore()
            na = sc.steps((f, a))
            for k in range(na + 1):
                plan = [(0, k), (1, INF), (0, INF)]
                st.restore()
                got = [shown(r) for r in sc.run(jobs, plan)]
                ctx.states += 1
                ctx.transitions += 2
                ctx.traces += 2
                if got != [want, other]:
                    bad = got[0] == want
                    ctx.fail(src, (want, other)[bad], got[bad], key=f"threads {src} @ {lit(a)} || {lit(b)}", why=f"schedule {plan}")
                    ctx.fails[-1]["script"] = ESCRIPT.format(src=REPO_SRC, verif=VERIF, prog=src, combos=(ka, kb), plan=plan)
                    break
            st.restore()
            for k in range(ne.steps((f, a))):
                st.restore()
                got = [shown(r) for r in ne.run(jobs[0], k, jobs[1])]
                ctx.states += 1
                ctx.transitions += 2
                ctx.traces += 2
                if got != [want, other]:
                    bad = got[0] == want
                    ctx.fail(src, (want, other)[bad], got[bad], key=f"in the middle: {src} @ {lit(b)} within {lit(a)}", why=f"before line {k}")
                    ctx.fails[-1]["script"] = ESCRIPT.format(src=REPO_SRC, verif=VERIF, prog=src, combos=(ka, kb), plan=k)
                    if "Stuck" in got:
                        return  # every other would take its time as well
                    break
    ctx.outcomes["stalls on locks"] += sc.stalls
    ctx.sample(f"{src}: {na + 1} schedules in two threads")


def plans(na, nb, fine, thorough):
    """all schedules with up to two preemptions; long operations are cut at
    every step for one preemption and at every k-th pair of steps for two"""
    out = [[(0, k), (1, INF), (0, INF)] for k in range(na + 1)]
    if fine:
        return out
    lim = 10**9 if thorough else LIMIT
    ka = max(1, -(-na // lim))
    kb = max(1, -(-nb // lim))
    out += [[(0, k), (1, m), (0, INF), (1, INF)] for k in range(0, na + 1, ka) for m in range(1, nb, kb)]
    return out


def run_threads(ctx, i, n):
    threads(ctx, i, n, False)


def run_fine(ctx, i, n):
    threads(ctx, i, n, True)


def run(ctx, shard):
    kind, *a = shard
    init_worker()
    globals()["run_" + kind](ctx, *a)
