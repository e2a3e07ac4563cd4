from __future__ import annotations

import ast
import datetime
import itertools
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

import whenever
from whenever import *  # noqa: F403
from whenever import MonthDay, RepeatedTime, SkippedTime, Weekday, YearMonth

from ..core import REPO_SRC
from ..vals import lit

ID = "C21"
TITLE = "The type stubs promise exactly what the library does at run time"
PYI = os.path.join(REPO_SRC, "whenever", "__init__.pyi")

# sort -> values it takes at run time
POOL = {
    "Date": [Date(2020, 2, 29), Date(1, 1, 1), Date(9999, 12, 31), Date(2021, 5, 31)],
    "Time": [Time(), Time(12, 30), Time(23, 59, 59, nanosecond=999_999_999)],
    "Instant": [Instant.from_utc(2020, 1, 2), Instant.MIN, Instant.MAX, Instant.from_utc(2023, 10, 29, 0, 30, nanosecond=5)],
    "OffsetDateTime": [OffsetDateTime(2020, 1, 2, offset=1), OffsetDateTime(2023, 10, 29, 2, 30, nanosecond=5, offset=2), OffsetDateTime(2020, 2, 29, 23, offset=TimeDelta(seconds=-1)), OffsetDateTime(9999, 12, 31, offset=0)],
    "ZonedDateTime": [ZonedDateTime(2020, 1, 2, tz="Europe/Paris"), ZonedDateTime(2023, 10, 29, 2, 30, nanosecond=5, tz="Europe/Paris"), ZonedDateTime(2023, 10, 29, 2, 30, tz="Europe/Paris", disambiguate="later"),
                      ZonedDateTime(2023, 3, 26, 1, 30, tz="Europe/Paris"), ZonedDateTime(9999, 12, 31, tz="UTC"), ZonedDateTime(1, 1, 1, tz="UTC")],
    "SystemDateTime": [SystemDateTime(2020, 1, 2), SystemDateTime(2023, 10, 29, 2, 30, nanosecond=5), SystemDateTime(2024, 2, 29, 23, 59, 59)],
    "LocalDateTime": [LocalDateTime(2020, 1, 2), LocalDateTime(2023, 3, 26, 2, 30), LocalDateTime.MIN, LocalDateTime.MAX, LocalDateTime(2024, 2, 29, 1, nanosecond=1)],
    "DateDelta": [DateDelta(days=3), DateDelta(), DateDelta(years=-1, days=-5), DateDelta(months=14)],
    "TimeDelta": [TimeDelta(hours=3), TimeDelta(), TimeDelta(nanoseconds=-1), TimeDelta.MAX, TimeDelta(seconds=90_061.5)],
    "DateTimeDelta": [DateTimeDelta(days=2, hours=3), DateTimeDelta(), DateTimeDelta(months=-1, nanoseconds=-7), DateTimeDelta(hours=5), DateTimeDelta(days=9)],
    "YearMonth": [YearMonth(2020, 2), YearMonth(1, 1), YearMonth(9999, 12)],
    "MonthDay": [MonthDay(2, 29), MonthDay(12, 31), MonthDay(1, 1)],
    "int": [2, 0, -1, 10**6],
    "float": [1.5, 0.0, -2.25],
    "str": ["a", "", "Europe/Paris"],
    "None": [None],
    "datetime.datetime": [datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)],
    "datetime.date": [datetime.date(2020, 1, 1)],
    "datetime.time": [datetime.time(1, 2)],
    "datetime.timedelta": [datetime.timedelta(1), datetime.timedelta(0)],
    "Weekday": [Weekday.MONDAY, Weekday.SUNDAY],
}
LIB = list(POOL)[:12]
VAR = {s: "v_" + s.replace(".", "_") for s in POOL}
BINARY = "+ - * / // % ** @ & | ^ << >> < <= > >= == !=".split()
UNARY = ["-{}", "+{}", "~{}", "abs({})", "bool({})", "hash({})", "len({})", "int({})", "float({})", "round({})", "str({})", "repr({})", "iter({})", "list({})", "complex({})", "next({})", "{}()", "{}[0]", "reversed({})"]
GOOD = {"ignore_dst": ["True"], "disambiguate": ["'compatible'", "'raise'", "'later'"], "unit": ["'hour'", "'day'", "'nanosecond'"], "mode": ["'ceil'", "'half_even'"], "tz": ["'Europe/Paris'", "'UTC'"],
        "offset": ["1", "TimeDelta(minutes=90)"]}
FLOATS = {"hours", "minutes", "seconds", "milliseconds", "microseconds"}
SETUP = "import datetime, whenever\nfrom whenever import *\nfrom whenever import YearMonth, MonthDay, Weekday, SkippedTime, RepeatedTime, InvalidOffset, milliseconds, nanoseconds, microseconds\n"
# a type-correct program may still be refused for its values
VALUE_ERRORS = (ValueError, ArithmeticError, SkippedTime, RepeatedTime, KeyError, OSError)
NS = {}
exec(SETUP, NS)


def bounds(tier):
    return {"sorts": list(POOL), "binary operators": BINARY + ["divmod"], "unary": UNARY, "programs": "single operator / attribute / call with up to " + ("2" if tier == "quick" else "3") + " keywords",
            "values per sort": {k: len(v) for k, v in POOL.items()}}


def stub():
    """method -> argument names, and all attribute names, of the stub file"""
    args, attrs, tops = {}, set(), set()
    for c in ast.parse(pathlib.Path(PYI).read_text()).body:
        if isinstance(c, (ast.ClassDef, ast.FunctionDef)):
            tops.add(c.name)
        if isinstance(c, ast.Assign) and not isinstance(c.value, ast.BinOp):  # (type aliases)
            tops |= {t.id for t in c.targets if isinstance(t, ast.Name)}
        if isinstance(c, ast.ClassDef):
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    attrs.add(n.name)
                    k = args.setdefault(n.name if n.name != "__init__" else c.name, set())
                    k |= {a.arg for a in n.args.args + n.args.kwonlyargs} - {"self", "cls"}
                elif isinstance(n, ast.AnnAssign):
                    attrs.add(n.target.id)
        elif isinstance(c, ast.FunctionDef):
            args[c.name] = {a.arg for a in c.args.args + c.args.kwonlyargs}
    return args, attrs, tops


def names():
    _, attrs, _ = stub()
    for t in LIB:
        attrs |= set(dir(getattr(whenever, t)))
    return sorted(n for n in attrs if not n.startswith("_"))


# A program: (source over variables, sorts of the variables used, rule)
# rules: op    both directions: rejected means TypeError
#        name  both directions: rejected means the name does not exist
#        call  both directions, arguments individually well-typed
#        some  only what is accepted must work
def programs(kind, tier):
    args, _, tops = stub()
    if kind == "op":
        for a, b in itertools.product(POOL, POOL):
            if a in LIB or b in LIB:
                x, y = VAR[a], VAR[b]
                if a == b:
                    y += "_2"
                for o in BINARY:
                    if (a, o) == ("str", "%"):
                        continue  # string formatting: not the library's
                    yield f"{x} {o} {y}", (a, b), "op"
                yield f"divmod({x}, {y})", (a, b), "op"
        for a in LIB:
            for u in UNARY:
                yield u.format(VAR[a]), (a,), "op"
    elif kind == "name":
        for n in names():
            for a in LIB:
                yield f"{VAR[a]}.{n}", (a,), "name"
                yield f"{a}.{n}", (), "name"
        mod = {n for n in dir(whenever) if not n.startswith("_")} | {n for n in tops if not n.startswith("_")}
        for n in sorted(mod | {"__version__", "_EXTENSION_LOADED"}):
            yield f"whenever.{n}", (), "name"
    else:
        yield from calls(kind, args, tier)


def good(k):
    return GOOD.get(k) or (["1", "1.5", "-2"] if k in FLOATS else ["1", "-2"])


DELTAS = ["TimeDelta", "DateDelta", "DateTimeDelta"]


def calls(kind, args, tier):
    for t in LIB:
        cls = getattr(whenever, t)
        for n in names() + [t]:
            if n == t:
                pre, sorts = t, ()
            else:
                if not hasattr(cls, n) or not callable(getattr(cls, n)):
                    continue
                static = isinstance(cls.__dict__.get(n), (classmethod, staticmethod))
                pre, sorts = (t, ()) if static else (VAR[t], (t,))
                pre += "." + n
            if t == n == "Instant":
                continue  # documented: refuses to be called
            if kind == "kw":
                ks = sorted(args.get(n, ()))
                yield f"{pre}()", sorts, "call"
                for r in (1, 2) if tier == "quick" else (1, 2, 3):
                    for c in itertools.combinations(ks, r):
                        for vs in itertools.product(*(good(k)[: 3 if r == 1 else 2] for k in c)):
                            yield f"{pre}({', '.join(f'{k}={v}' for k, v in zip(c, vs))})", sorts, "call"
                yield f"{pre}(nonsense=1)", sorts, "call"
                if n == t:
                    for m in range(1, 9):
                        pos = "2020, 2, 3, 4, 5, 6, 7, 8".split(", ")[:m]
                        if t in ("Time", "MonthDay"):
                            pos = ["2", "3", "4", "5", "6", "7", "8", "9"][:m]
                        for ex in ("", "nanosecond=5", "offset=1", "tz='Europe/Paris'", "disambiguate='later'", "tz='Europe/Paris', disambiguate='raise'", "nanosecond=5, offset=TimeDelta(hours=2)"):
                            yield f"{pre}({', '.join([*pos, *([ex] if ex else [])])})", sorts, "call"
            else:
                for s in POOL:
                    v = VAR[s] + "_2" if s == t else VAR[s]
                    for ex in ("", ", ignore_dst=True", ", disambiguate='earlier'"):
                        rule = "call" if s in DELTAS and n in ("add", "subtract") and not ex else "some"
                        yield f"{pre}({v}{ex})", sorts + (s,), rule
                for x in ("'hour'", "'day'", "'raise'", "'second', 30", "'hour', 2, 'ceil'", "'day', 1, 'floor'", "'second', mode='floor'", "'hour', 2, 'ceil', ignore_dst=True", "'day', ignore_dst=True",
                          "1", "2020", "TimeDelta(hours=1)", "-1, offset=TimeDelta(hours=1), ignore_dst=True", "1, offset=2, ignore_dst=True", "1.5, offset=2, ignore_dst=True", "1, tz='Europe/Paris'", "1.5, tz='UTC'",
                          "'2020-01-01', '%Y-%m-%d'", "'2020-01-01 +0100', '%Y-%m-%d %z'", "1, ignore_dst=True", "TimeDelta(hours=1), ignore_dst=True", "'Europe/Paris', disambiguate='later'",
                          "v_Date_2, ignore_dst=True" if t != "Date" else "2"):
                    used = ("Date",) if "v_Date_2" in x else ()
                    yield f"{pre}({x})".replace("v_Date_2", VAR["Date"]), sorts + used, "some"
        if kind == "pos" and t == "Date":
            for f in ("years", "months", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"):
                for s in POOL:
                    yield f"{f}({VAR[s]})", (s,), "some"
                yield f"{f}()", (), "call"
                yield f"{f}(1)", (), "call"
                yield f"{f}(1, 2)", (), "call"


def shards(tier):
    return [("op", i, 6) for i in range(6)] + [("name", 0, 1)] + [("kw", i, n) for n in [3 if tier == "quick" else 10] for i in range(n)] + [("pos", i, 3) for i in range(3)]


def exactly_zero(d):
    return not (d if type(d) is TimeDelta else d.time_part())


def type_ok(t: str, v) -> bool:
    t = t.strip()
    if t.startswith("Union["):
        return any(type_ok(x, v) for x in split(t[6:-1]))
    if t.startswith("tuple["):
        p = split(t[6:-1])
        return type(v) is tuple and (len(p) == len(v) and all(type_ok(a, b) for a, b in zip(p, v)))
    if t == "builtins.float":
        return type(v) in (float, int)
    if t == "builtins.bool":
        return type(v) is bool
    if t == "None":
        return v is None
    if t == "Any" or t.startswith("def ") or t.startswith("Overload(") or t.startswith("_pytest") or "[" in t:
        return True
    mod, _, name = t.rpartition(".")
    if mod == "whenever":
        return type(v) is getattr(whenever, name, None)
    if mod == "datetime":
        return type(v) is getattr(datetime, name)
    if mod == "builtins" and name in ("int", "str"):
        return type(v).__name__ == name
    return True


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch in "[("
        depth -= ch in "])"
        if ch == "," and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def mypy(progs):
    """per program: (accepted, revealed type, message)"""
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        decl = "".join(f"{VAR[s]}: {s}\n{VAR[s]}_2: {s}\n" for s in POOL)
        head = SETUP + decl
        skip = head.count("\n")
        with open(os.path.join(d, "p.py"), "w") as fh:
            fh.write(head)
            for src, _, _ in progs:
                fh.write(f"reveal_type({src})\n")
        with open(os.path.join(d, "none.ini"), "w") as fh:
            fh.write("[mypy]\n")
        r = subprocess.run(
            [sys.executable, "-m", "mypy", "--cache-dir=/dev/null", "--no-error-summary", "--no-pretty", "--hide-error-codes", "--config-file=none.ini", "p.py"],
            cwd=d, capture_output=True, text=True, env={**os.environ, "MYPYPATH": REPO_SRC})
        types, errs, other = {}, {}, []
        for line in r.stdout.splitlines():
            m = re.match(r"p\.py:(\d+): (\w+): (.*)", line)
            if not m:
                if ": error:" in line:
                    other.append(line)
                continue
            n = int(m[1]) - 1 - skip
            if m[2] == "error":
                errs.setdefault(n, m[3])
            elif m[3].startswith("Revealed type is"):
                types[n] = m[3][18:-1]
        if r.returncode not in (0, 1) or not types:
            raise RuntimeError(f"mypy: {r.stdout[-800:]} {r.stderr[-800:]}")
        return [(i not in errs and i in types, types.get(i), errs.get(i, "no verdict" if i not in types else "")) for i in range(len(progs))], other
    finally:
        shutil.rmtree(d)


def run_classes(ctx):
    """final classes can't be subclassed, and exceptions are of the promised kinds"""
    for c in ast.parse(pathlib.Path(PYI).read_text()).body:
        if not isinstance(c, ast.ClassDef) or c.name.startswith("_"):
            continue
        cls = getattr(whenever, c.name)
        ctx.states += 1
        ctx.transitions += 1
        for b in c.bases:
            b = eval(ast.unparse(b), {**vars(__builtins__ if not isinstance(__builtins__, dict) else __import__("builtins")), "enum": __import__("enum"), "ABC": object, **{k: object for k in ("_KnowsLocal", "_KnowsInstant", "_KnowsInstantAndLocal")}})
            if not issubclass(cls, b):
                ctx.fail(f"issubclass(whenever.{c.name}, {b.__name__})", True, False)
        if any(ast.unparse(d) == "final" for d in c.decorator_list) and not issubclass(cls, Exception):
            try:
                type("Sub", (cls,), {})
                got = "subclassed"
            except TypeError:
                got = "TypeError"
            if got != "TypeError":
                ctx.fail(f"type('Sub', (whenever.{c.name},), {{}})", "TypeError", got)


def run(ctx, shard):
    kind, i, n = shard
    if kind == "name":
        run_classes(ctx)
    progs = list(dict.fromkeys(programs(kind, ctx.tier)))[i::n]
    verdicts, other = mypy(progs)
    for line in other:
        ctx.fail("whenever.__init__ stubs", "stubs free of type errors", line, key="stub error " + line)
    for (src, sorts, rule), (ok, typ, msg) in zip(progs, verdicts):
        ctx.states += 1
        ctx.outcomes["accepted" if ok else "rejected"] += 1
        vs = []
        for j, s in enumerate(sorts):
            v = VAR[s]
            vs.append(v + "_2" if v in vs else v)
        f = eval(f"lambda {', '.join(vs)}: {src}", NS)
        if not ok and rule == "some":
            ctx.outcomes["rejected, not compared"] += 1
            continue
        n_bad = len(ctx.fails)
        for values in itertools.product(*(POOL[s] for s in sorts)):
            if len(ctx.fails) > n_bad:
                break
            ctx.transitions += 1
            ctx.traces += 1
            try:
                got = f(*values)
                err = None
            except Exception as e:  # noqa: BLE001
                got, err = None, e
            if ok:
                if err is not None:
                    if isinstance(err, VALUE_ERRORS):
                        ctx.outcomes["accepted, value refused"] += 1
                        continue
                    bad(ctx, src, vs, values, f"type checker: {typ}", repr(err)[:150])
                elif not type_ok(typ, got):
                    bad(ctx, src, vs, values, f"type checker: {typ}", f"{type(got).__name__} {got!r}"[:150])
            elif rule == "op":
                if type(err) is not TypeError and not isinstance(err, TypeError):
                    bad(ctx, src, vs, values, f"TypeError (type checker: {msg})", repr(err if err is not None else got)[:150])
            elif rule == "name":
                if not isinstance(err, AttributeError):
                    bad(ctx, src, vs, values, f"no such name (type checker: {msg})", repr(err if err is not None else got)[:150])
            elif rule == "call":
                # adding no time at all needs no opt-out
                if err is None and not any(type(v) in (TimeDelta, DateTimeDelta) and exactly_zero(v) for v in values):
                    bad(ctx, src, vs, values, f"refused (type checker: {msg})", repr(got)[:150])
    ctx.sample(progs[len(progs) // 2][0])


SCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C21: stub verdict against run time"""
import subprocess, sys, os, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, {src!r})
{setup}
SORTS = {sorts!r}
src = {prog!r}
d = tempfile.mkdtemp()
open(d + "/p.py", "w").write({setup!r} + "".join(f"{{n}}: {{s}}\\n" for n, s in SORTS) + f"reveal_type({{src}})\\n")
out = subprocess.run([sys.executable, "-m", "mypy", "--cache-dir=/dev/null", "p.py"], cwd=d, env={{**os.environ, "MYPYPATH": {src!r}}}, capture_output=True, text=True).stdout
print(out)
ok = "error:" not in out
shutil.rmtree(d)
{vals}
try:
    got = eval(src)
    print("run time:", type(got), repr(got))
    wrong = not ok or type(got).__name__ not in out
except Exception as e:
    print("run time:", type(e), e)
    wrong = ok and isinstance(e, (TypeError, AttributeError, NameError, AssertionError))
print("expected:", {exp!r})
sys.exit(1 if wrong else 0)
'''


def bad(ctx, src, vs, values, exp, got):
    sort = {v: k for k, v in VAR.items()}
    ctx.fail(src, exp, got, setup="".join(f"{n} = {lit(v)}\n" for n, v in zip(vs, values)), key=src + " @ " + ", ".join(map(lit, values)))
    if ctx.fails:
        ctx.fails[-1]["script"] = SCRIPT.format(src=REPO_SRC, setup=SETUP, sorts=[(n, sort[n.removesuffix("_2")]) for n in vs], prog=src, vals="\n".join(f"{n} = {lit(v)}" for n, v in zip(vs, values)), exp=exp)
