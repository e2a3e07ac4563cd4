"""Exploration engine: shards of an enumerated space run in worker processes,
counters, violations with stand-alone replay scripts, evidence files."""
from __future__ import annotations

import collections
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/pysrc")
MAX_FAILS_PER_SHARD = 12
MAX_REPORTED = 10
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and replays are written
SHARD_TIMEOUT = int(os.environ.get("VERIF_SHARD_TIMEOUT", "400"))


class ShardTimeout(BaseException):
    pass


class TooManyFails(BaseException):
    pass


class Ctx:
    """Counters and findings of one shard."""

    def __init__(self, tier: str, seed: int):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.states = 0  # distinct source states (inputs / configurations / histories)
        self.transitions = 0  # operations of the code under test executed
        self.traces = 0  # model predictions replayed on the implementation and compared
        self.outcomes = collections.Counter()
        self.samples: list[str] = []
        self.fails: list[dict] = []
        self.known_hits: list[dict] = []
        self.last_op = ""
        self._known = {}

    def sample(self, s: str, n: int = 2) -> None:
        if len(self.samples) < n:
            self.samples.append(s)

    def fail(
        self,
        expr: str,
        expected,
        got,
        *,
        setup: str = "",
        key: str | None = None,
        why: str = "",
    ) -> None:
        """Record that `expr` (whenever code) should give `expected`.

        `expected` and `got` are compared as text, see `show`.
        """
        f = {
            "key": key if key is not None else (setup + expr),
            "setup": setup,
            "expr": expr,
            "expected": show(expected),
            "got": show(got),
            "why": why,
        }
        if f["key"] in self._known:
            self.known_hits.append(f)
            return
        self.fails.append(f)
        if len(self.fails) >= MAX_FAILS_PER_SHARD:
            raise TooManyFails()

    def dump(self) -> dict:
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            outcomes=dict(self.outcomes),
            samples=self.samples,
            fails=self.fails,
            known_hits=self.known_hits,
        )


def show(x) -> str:
    if isinstance(x, str):
        return x
    if isinstance(x, BaseException):
        return type(x).__name__
    return repr(x)


RANGE = (ValueError, OverflowError)


def call(f, *a, **k):
    """Value, or the exception instance (for in-line comparison)."""
    try:
        return f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return e


def _run_shard(mod, shard, tier, seed, known) -> dict:
    ctx = Ctx(tier, seed)
    ctx._known = known

    def on_alarm(*_):
        raise ShardTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(SHARD_TIMEOUT)
    t0 = time.monotonic()
    try:
        mod.run(ctx, shard)
    except TooManyFails:
        pass
    except ShardTimeout:
        ctx.fails.append(
            dict(
                key="timeout:" + repr(shard)[:200],
                setup="",
                expr=f"shard {shard!r}",
                expected="terminates",
                got=f"no answer within {SHARD_TIMEOUT}s",
                why=ctx.last_op,
            )
        )
    except Exception:  # noqa: BLE001
        # Operations whose exceptions are part of the model are caught at
        # the call; anything that arrives here was not predicted by the model.
        ctx.fails.append(
            dict(
                key="exception:" + repr(shard)[:200],
                setup="",
                expr=f"shard {shard!r}",
                expected="no unpredicted exception",
                got=traceback.format_exc(limit=-6),
                why=ctx.last_op,
            )
        )
    finally:
        signal.alarm(0)
    d = ctx.dump()
    d["shard"] = repr(shard)[:120]
    d["wall"] = time.monotonic() - t0
    return d


def _worker(mod, shards, inq, outq, tier, seed, known, current, slot):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        while True:
            item = inq.get()
            if item is None:
                break
            i = item
            current[slot] = i
            outq.put((i, _run_shard(mod, shards[i], tier, seed, known)))
    except BaseException:  # noqa: BLE001
        outq.put((-1, traceback.format_exc()))


def explore(mod, tier: str, seed: int, known: dict) -> list[dict]:
    shards = list(mod.shards(tier))
    # the seed only permutes the order in which the shards are explored
    order = list(range(len(shards)))
    import random

    random.Random(seed).shuffle(order)
    n = min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1)), len(shards))
    n = min(n, getattr(mod, "MAX_JOBS", 64))
    results: list[dict] = []
    if n <= 1:
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        for i in order:
            results.append(_run_shard(mod, shards[i], tier, seed, known))
            if results[-1]["fails"] and os.environ.get("VERIF_FAILFAST"):
                break
        return results
    mpc = mp.get_context("fork")
    inq, outq = mpc.Queue(), mpc.Queue()
    for i in order:
        inq.put(i)
    for _ in range(n):
        inq.put(None)
    current = mpc.Array("l", [-1] * n, lock=False)
    procs = [
        mpc.Process(target=_worker, args=(mod, shards, inq, outq, tier, seed, known, current, k), daemon=True)
        for k in range(n)
    ]
    for p in procs:
        p.start()
    done = 0
    crashed = None
    while done < len(shards):
        try:
            i, res = outq.get(timeout=2)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                try:
                    i, res = outq.get(timeout=1)
                except queue.Empty:
                    crashed = "worker processes died: exit codes " + repr(
                        [p.exitcode for p in procs]
                    )
                    break
            else:
                continue
        if i == -1:
            crashed = res
            break
        results.append(res)
        done += 1
        if sum(len(r["fails"]) for r in results) >= (1 if os.environ.get("VERIF_FAILFAST") else 60):
            break  # plenty of counterexamples
        if any(f["key"].startswith("timeout:") for f in res["fails"]):
            break
    inq.cancel_join_thread()  # what is left in it isn't wanted any more
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(5)
    if crashed:
        # the implementation brought the whole interpreter down (abort, segmentation fault)
        for k, p in enumerate(procs):
            if p.exitcode in CRASH and current[k] >= 0:
                d = Ctx(tier, seed).dump()
                shard = repr(shards[current[k]])
                name = signal.Signals(-p.exitcode).name
                d["fails"] = [dict(key=f"crash:{shard[:200]}", setup="", expr=f"shard {shard}", expected="no crash of the interpreter",
                                   got=name, why="", script=CRASH_REPLAY.format(verif=VERIF, src=REPO_SRC, mod=mod.__name__, i=current[k], tier=tier, seed=seed, name=name))]
                d["shard"], d["wall"] = shard[:120], 0.0
                results.append(d)
                crashed = ""
        if crashed:
            raise RuntimeError(crashed)
    return results


CRASH = (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE)
CRASH_REPLAY = '''#!/opt/venv/bin/python
"""Replay: the interpreter is ended by {name} while this shard is explored"""
import os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-cache"
sys.path.insert(0, {verif!r})
sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", {src!r}))
os.environ.setdefault("TZ", "UTC")
import importlib, time
time.tzset()
pid = os.fork()
if pid == 0:
    from mc import core
    mod = importlib.import_module({mod!r})
    if hasattr(mod, "init_worker"):
        mod.init_worker()
    core._run_shard(mod, list(mod.shards({tier!r}))[{i}], {tier!r}, {seed}, {{}})
    os._exit(0)
st = os.waitpid(pid, 0)[1]
print("wait status", st)
sys.exit(1 if os.WIFSIGNALED(st) else 0)
'''


REPLAY = '''#!/opt/venv/bin/python
"""Replay of a violation of property {pid}: {title}

why: {why}
"""
import sys
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-cache"
sys.path.insert(0, {verif!r})
sys.path.insert(0, {src!r})
{setup}
from whenever import *
import whenever

EXPECTED = {expected!r}
try:
    got = eval({expr!r})
    got = got if isinstance(got, str) else repr(got)
except Exception as e:
    got = type(e).__name__
print("expression:", {expr!r})
print("expected  :", EXPECTED)
print("observed  :", got, "(when found: " + {got!r} + ")")
sys.exit(0 if got == EXPECTED or got in EXPECTED.split("|") else 1)
'''


def write_replay(pid, title, n, f) -> str:
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", f"{pid}-{n}.py")
    if "script" in f:
        body = f["script"]
    else:
        body = REPLAY.format(
            pid=pid,
            title=title,
            why=f["why"].replace('"""', "'''").replace("\\", "\\\\"),
            src=REPO_SRC,
            verif=VERIF,
            setup=f["setup"],
            expected=f["expected"],
            expr=f["expr"],
            got=f["got"],
        )
    with open(path, "w") as fh:
        fh.write(body)
    return path


def main(mod, tier: str, seed: int) -> int:
    pid = mod.ID
    t0 = time.monotonic()
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = {
        e["key"]: e for e in kf["findings"] if e["property"] == pid
    }
    results = explore(mod, tier, seed, known)
    tot = Ctx(tier, seed)
    fails, hits = [], {}
    for r in results:
        tot.states += r["states"]
        tot.transitions += r["transitions"]
        tot.traces += r["traces"]
        tot.outcomes.update(r["outcomes"])
        tot.samples += r["samples"]
        fails += r["fails"]
        for h in r["known_hits"]:
            hits[h["key"]] = h
    if hasattr(mod, "finish"):
        fails += mod.finish(results, tier) or []
    wall = time.monotonic() - t0
    seen = set()
    uniq = []
    for f in fails:
        if f["key"] not in seen:
            seen.add(f["key"])
            uniq.append(f)
    step = max(1, len(tot.samples) // 12)
    nonzero = {k: v for k, v in sorted(tot.outcomes.items())}
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(
        states=tot.states,
        transitions=tot.transitions,
        traces_validated_against_impl=tot.traces,
        samples=tot.samples[::step][:12] or ["(none)"],
        shards=len(results),
        outcome_classes=nonzero,
        bounds=mod.bounds(tier) if callable(getattr(mod, "bounds", None)) else mod.BOUNDS,
        rule=getattr(
            mod,
            "RULE",
            "states: enumerated source states; transitions: operations executed on the "
            "implementation; traces: predictions of the independent reference model replayed "
            "on the implementation and compared",
        ),
        known_findings_seen=sorted(hits),
    )
    if level == "exploration":
        cov["evaluations"] = tot.transitions
        cov["distinct_nontrivial"] = tot.states
    cov["exhaustive"] = True
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 3),
        violations=len(uniq),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    slow = sorted(results, key=lambda r: -r["wall"])[:3]
    print(
        f"{pid} [{tier}] states={tot.states} transitions={tot.transitions} "
        f"traces={tot.traces} shards={len(results)} wall={wall:.1f}s"
    )
    print("  outcomes:", ", ".join(f"{k}={v}" for k, v in nonzero.items()))
    print("  slowest shards:", ", ".join(f"{r['shard'][:50]} {r['wall']:.1f}s" for r in slow))
    for k, h in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    for n, f in enumerate(uniq[:MAX_REPORTED]):
        path = write_replay(pid, mod.TITLE, n, f)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"    {f['key'][:300]}\n    expected {f['expected']}\n    got      {f['got']}")
        if f["why"]:
            print(f"    ({f['why']})")
    if len(uniq) > MAX_REPORTED:
        print(f"  ... and {len(uniq) - MAX_REPORTED} more")
    sys.stdout.flush()
    return 1 if uniq else 0
