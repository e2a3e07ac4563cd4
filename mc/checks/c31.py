"""The same call gives the same result in every surrounding of the interpreter"""
from __future__ import annotations

import atexit
import itertools
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile

import whenever

from .. import core, envs
from ..core import REPO_SRC, VERIF
from ..vals import lit

ID = "C31"
TITLE = "Results do not depend on the interpreter's surroundings"
ASSUMPTIONS = [
    "the surroundings are those of mc/envs.py; TZ, the clock and the time zone database are inputs of the library, not surroundings (TZ for the system type only)",
    "on the standard library's Python implementations: ValueError and OverflowError count as one outcome, values of the standard library's own types are not compared as text, and zones with a single transition are left out (there, the Python zoneinfo never sets the fold)",
    "the extension exists on CPython with the C implementations only: that surrounding is left out when C30 explores it",
]
RULE = "states: programs x values per surrounding, plus the states of the repeated explorations; transitions: evaluations"
EXT = bool(getattr(whenever, "_EXTENSION_LOADED", False))
QUICK = {"stdlib": ["C03", "C04", "C13", "C15", "C16", "C18", "C19", "C22", "C25", "C27", "C28", "C29", "C34"],
         "combo": ["C03", "C04", "C05", "C07", "C13", "C15", "C16", "C18", "C19", "C20", "C22", "C23", "C25", "C26", "C27", "C28", "C29", "C32", "C34"]}
EVERY = [f"C{n:02}" for n in range(1, 35) if n not in (21, 24, 30, 31)]
LOC = None
BASE = None
OWNER = None


def surroundings(tier):
    return [n for n in envs.ENVS if not (EXT and n == "stdlib")]


def repeats(tier):
    if EXT:
        return []
    if tier == "quick":
        return [(c, e) for e, cs in QUICK.items() for c in cs]
    return [(c, e) for c in EVERY for e in ("stdlib", "combo", "warn", "tz") if (c, e) != ("C33", "combo")]  # names of months come from the locale


def bounds(tier):
    return {
        "surroundings": {n: envs.ENVS[n][2] for n in surroundings(tier)},
        "programs": "every operation, method and constructor of the stubs on every combination of the pool's values (see C24), in each surrounding, against the plain one",
        "explorations repeated": [f"{c} in {e}" for c, e in repeats(tier)],
        "subinterpreters": f"all histories of up to {depth(tier)} events (create, use, end of two subinterpreters, use of the main one), each in a process of its own",
    }


def depth(tier):
    return 5 if tier == "quick" else 7


def shards(tier):
    global LOC, BASE, OWNER
    OWNER = os.getpid()
    LOC = tempfile.mkdtemp(prefix="c31-")
    atexit.register(clean)
    os.mkdir(LOC + "/loc")
    have = envs.make_locales(LOC + "/loc")
    rc, err = corpus("plain")
    if rc:
        raise RuntimeError(err)
    BASE = pickle.load(open(f"{LOC}/plain", "rb"))
    names = [n for n in surroundings(tier) if not n.startswith("locale:") or n[7:] in have]
    reps = repeats(tier)
    heavy = [(c, e) for c, e in reps if c in ("C15", "C19", "C22", "C18")]
    return [("corpus", n) for n in names if n in ("stdlib", "gc")] + [("check", *r) for r in heavy] + [("check", *r) for r in reps if r not in heavy] + [
        ("corpus", n) for n in names if n not in ("stdlib", "gc")] + [("sub", k) for k in range(8)]


def clean():
    if os.getpid() == OWNER:
        shutil.rmtree(LOC, ignore_errors=True)


def command(name):
    cmd, env = envs.command(name, LOC + "/loc" if LOC else None)
    env.pop("PYTHONPATH", None)
    env["VERIF_REPO_SRC"] = REPO_SRC
    return cmd, env


def corpus(name, show=None):
    cmd, env = command(name)
    p = subprocess.run([*cmd, "-m", "mc.hist", "0", f"{LOC}/{name}" if show is None else os.devnull, *([str(show)] if show is not None else [])], cwd=VERIF, env=env, capture_output=True, text=True, errors="replace", stdin=subprocess.DEVNULL)
    if show is not None:
        return p.stdout.strip() or p.stderr[-300:]
    return p.returncode, p.stderr[-1500:]


def run(ctx, shard):
    kind, *a = shard
    if kind == "corpus":
        run_corpus(ctx, *a)
    elif kind == "check":
        run_check(ctx, *a)
    else:
        run_sub(ctx, *a)


SCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C31: the program
    {src}  with  {vals}
gives something else in the surrounding {name!r}: {what}"""
import os, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, {verif!r})
from mc import envs
d = tempfile.mkdtemp()
r = []
try:
    envs.make_locales(d)
    for name in ("plain", {name!r}):
        cmd, env = envs.command(name, d)
        env["VERIF_REPO_SRC"] = os.environ.get("VERIF_REPO_SRC", {repo!r})
        p = subprocess.run([*cmd, "-m", "mc.hist", "0", os.devnull, "{i}"], cwd={verif!r}, env=env, capture_output=True, text=True, errors="replace")
        print(name, ":", p.stdout.strip() or p.stderr[-300:])
        r.append((p.stdout, p.returncode))
finally:
    shutil.rmtree(d)
sys.exit(0 if r[0] == r[1] else 1)
'''


def run_corpus(ctx, name):
    rc, err = corpus(name)
    what = envs.ENVS[name][2]
    if rc:
        ctx.fail(f"all programs, {what}", "as in the plain surrounding", f"exit code {rc}: {err[-400:]}", key=f"{name}: does not run")
        ctx.fails[-1]["script"] = SCRIPT.format(src="(any)", vals="(any)", name=name, what=what, i=0, verif=VERIF, repo=REPO_SRC)
        return
    res, problems, res2 = pickle.load(open(f"{LOC}/{name}", "rb"))
    os.remove(f"{LOC}/{name}")
    a, b = (BASE[2], res2) if name == "stdlib" else (BASE[0], res)
    done = [i for i in range(len(b)) if not (name == "gc" and i % 8)]
    ctx.states += len(done)
    ctx.transitions += len(done)
    ctx.traces += len(done)
    for i, w, was, now, src, vals in problems:
        ctx.fail(src, f"unchanged: {was}"[:300], f"{w}: {now}"[:300], key=f"{name}: {src} @ {vals}: {w}")
        ctx.fails[-1]["script"] = SCRIPT.format(src=src, vals=vals, name=name, what=what, i=i, verif=VERIF, repo=REPO_SRC)
    progs = None
    for i in done:
        if a[i] == b[i]:
            continue
        if progs is None:
            from .. import hist

            progs = list(hist.compiled())
        src, _, vals = progs[i]
        if name == "tz" and hist.local(src, [type(v).__name__ for v in vals]):
            continue
        ctx.fail(src, corpus("plain", i), corpus(name, i), key=f"{name}: {src} @ {lit(vals)}", why=what)
        ctx.fails[-1]["script"] = SCRIPT.format(src=src, vals=lit(vals), name=name, what=what, i=i, verif=VERIF, repo=REPO_SRC)
        if len(ctx.fails) > 3:
            break
    ctx.outcomes["surroundings compared"] += 1
    ctx.sample(f"{name} ({what}): {len(done)} programs x values")


HEAD = re.compile(r"^VIOLATION property=(\S+) replay=(\S+)$", re.M)
WRAP = '''#!/opt/venv/bin/python
"""Replay of a violation found by {cid} in the surrounding {name!r} ({what})"""
import os, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, {verif!r})
from mc import envs
d = tempfile.mkdtemp()
try:
    envs.make_locales(d)
    cmd, env = envs.command({name!r}, d)
    env["VERIF_REPO_SRC"] = {repo!r}
    with open(d + "/replay.py", "w") as fh:
        fh.write({script!r})
    rc = subprocess.run([*cmd, "-c", "import sys; sys.path.insert(0, " + repr({verif!r}) + "); from mc import envs; envs.apply(); import runpy; runpy.run_path(" + repr(d + "/replay.py") + ", run_name='__main__')"], env=env).returncode
finally:
    shutil.rmtree(d)
sys.exit(rc)
'''


def run_check(ctx, cid, name):
    signal.alarm(0)  # it has limits of its own
    what = envs.ENVS[name][2]
    cmd, env = command(name)
    out = tempfile.mkdtemp(prefix="c31-")
    env |= {"VERIF_OUT": out, "VERIF_SEED": str(ctx.seed), "VERIF_JOBS": "1" if ctx.tier == "quick" else "4", "VERIF_SHARD_TIMEOUT": "3000"}
    try:
        p = subprocess.run([*cmd, os.path.join(VERIF, "check.py"), cid, "quick"], env=env, capture_output=True, text=True, errors="replace", cwd=VERIF, stdin=subprocess.DEVNULL, timeout=780 if ctx.tier == "quick" else 4000)
        m = list(HEAD.finditer(p.stdout))
        if p.returncode == 1 and m:
            for m in m[:3]:
                rest = p.stdout[m.end():].split("VIOLATION")[0].strip()[:700]
                script = WRAP.format(cid=cid, name=name, what=what, verif=VERIF, repo=REPO_SRC, script=open(m[2]).read())
                ctx.fails.append(dict(key=f"{cid} in {name} ({what}): {rest}", setup="", expr=cid, expected="as above", got="as above", why="", script=script))
            return
        if p.returncode:
            raise RuntimeError(f"{cid} in {name}: exit code {p.returncode}\n{(p.stdout + p.stderr)[-2000:]}")
        ev = json.load(open(os.path.join(out, "evidence", f"{cid}.json")))["coverage"]
        ctx.states += ev["states"]
        ctx.transitions += ev["transitions"]
        ctx.traces += ev["traces_validated_against_impl"]
        ctx.outcomes["explorations repeated"] += 1
    finally:
        shutil.rmtree(out, ignore_errors=True)


# ---- subinterpreters ---------------------------------------------------
USE = """
import os, pickle, copy
from whenever import *
import whenever
d = Date(2024, 2, 29); t = Time(1, 2, 3, nanosecond=4)
z = ZonedDateTime(2023, 10, 29, 2, 30, tz="Europe/Paris", disambiguate="later")
vals = [d, t, d.at(t), d + months(1), d - Date(2020, 1, 31), TimeDelta(hours=1) / TimeDelta(minutes=7), DateDelta(months=3) * 2, z, z.instant(), z.add(days=-1), z.round("day"),
        z.to_fixed_offset(), z.to_system_tz(), z.py_datetime(), z == z.instant(), hash(z.instant()) == hash(z), z.to_tz("Asia/Tokyo") - z, d.day_of_week(), d.year_month(),
        d.month_day(), Instant.parse_rfc2822("Thu, 02 Jan 2020 00:00:00 +0000"), DateTimeDelta.parse_common_iso("P1DT2H"), pickle.loads(pickle.dumps(z)), copy.deepcopy(d)]
for f in ("Date(2023, 2, 29)", "d + 1", "z.nothing", "ZonedDateTime(2023, 3, 26, 2, 30, tz='Europe/Paris', disambiguate='raise')", "ZonedDateTime(2020, 1, 1, tz='No/Zone')", "z < d", "LocalDateTime.now()", "Time(1).replace(hour=25)"):
    try:
        vals.append(eval(f))
    except Exception as e:
        vals.append(type(e).__name__)
with whenever.patch_current_time(z, keep_ticking=False):
    vals += [Instant.now(), ZonedDateTime.now("UTC")]
vals.append(0 < Instant.now().timestamp() - 1e9)
os.write({fd}, repr(vals).encode() + b"\\n")
"""
EVENTS = ("main", "+A", "A", "-A", "+B", "B", "-B")


def histories(n):
    """all sequences of n events in which only living subinterpreters are used or ended; A is created first"""

    def go(h, alive, made):
        if len(h) == n:
            yield h
            return
        for e in EVENTS:
            k = e[-1]
            if e == "main":
                if h and h[-1] == "main":
                    continue
                yield from go(h + (e,), alive, made)
            elif e[0] == "+":
                if k not in alive and (k == "A" or "A" in made):
                    yield from go(h + (e,), alive | {k}, made | {k})
            elif k in alive:
                if h[-1] == e:
                    continue
                yield from go(h + (e,), alive - {k} if e[0] == "-" else alive, made)

    yield from go((), frozenset(), frozenset())


def live(h):
    """runs one history; the values seen by each use"""
    import _xxsubinterpreters as subs

    r, w = os.pipe()
    ids = {}
    use = USE.format(fd=w)
    seen = []
    for e in h:
        k = e[-1]
        if e[0] == "+":
            ids[k] = subs.create(isolated=False)
            subs.run_string(ids[k], f"import sys; sys.dont_write_bytecode = True; sys.path.insert(0, {REPO_SRC!r})")
        elif e[0] == "-":
            subs.destroy(ids.pop(k))
        else:
            if e == "main":
                exec(use, {})
            else:
                subs.run_string(ids[k], use)
            seen.append(os.read(r, 65536).decode())
    return seen


SUBSCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C31: subinterpreters that come and go: {h}"""
import os, sys
sys.dont_write_bytecode = True
sys.path[:0] = [{verif!r}, os.environ.get("VERIF_REPO_SRC", {repo!r})]
from mc.checks import c31
pid = os.fork()
if not pid:
    first = c31.live(("main",))[0]
    seen = c31.live({h!r})
    print(*seen)
    sys.stdout.flush()
    os._exit(0 if all(s == first for s in seen) else 3)
st = os.waitpid(pid, 0)[1]
print("wait status", st)
sys.exit(1 if st else 0)
'''


def run_sub(ctx, k):
    try:
        import _xxsubinterpreters  # noqa: F401
    except ImportError:
        ctx.outcomes["no subinterpreters"] += 1
        return
    first = None
    n = 0
    for j, h in enumerate(itertools.chain.from_iterable(histories(d) for d in (range(depth(ctx.tier), depth(ctx.tier) + 1)))):
        if j % 8 != k:
            continue
        n += 1
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                seen = live(("main",) + h)
                os.write(w, pickle.dumps(seen))
                os.close(w)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        st = os.waitpid(pid, 0)[1]
        seen = pickle.loads(data) if data else []
        ctx.states += 1
        ctx.transitions += len(h)
        ctx.traces += len(seen)
        if first is None and seen:
            first = seen[0]
        bad = [s for s in seen if s != first]
        if st or bad or not seen:
            ctx.fail(f"history {h}", "the same values at every use", f"wait status {st}; {(bad or ['no answer'])[0][:400]}", key=f"subinterpreters {h}")
            ctx.fails[-1]["script"] = SUBSCRIPT.format(h=h, verif=VERIF, repo=REPO_SRC)
            if len(ctx.fails) > 2:
                break
    ctx.outcomes["subinterpreter histories"] += n
    ctx.sample(f"subinterpreter history {h}")
