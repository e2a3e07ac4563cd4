"""An operation that is cut short leaves nothing half done"""
from __future__ import annotations

import gc
import itertools
import os
import pickle
import signal
import time

from .. import faults, hist
from ..core import REPO_SRC, VERIF
from ..hist import PARIS, text
from .c35 import SETUP, program

ID = "C36"
TITLE = "An operation that is cut short fails as it was made to, and leaves everything as it was"
ASSUMPTIONS = ["interruptions: at the lines (thorough: also the bytecode instructions) of the library's Python code, one per evaluation",
               "memory: allocations of the interpreter's allocators, one failure per evaluation; a SystemError is the interpreter's own way of failing and counts as one"]
RULE = "states: programs x operand values; transitions: evaluations; traces: results compared after a fault"
SETUP = SETUP.replace("leaks", "faults")
PARTS = 96
STEP = {"quick": 12, "thorough": 1}


def bounds(tier):
    some = "all" if tier == "thorough" else f"every {STEP[tier]}th combination, and the first of each program for each type of outcome,"
    return {"programs": f"every operation, method, constructor of the stubs (also with wrong arguments) on {some} of the pool's values",
            "interruptions": "an exception at each line of the library that the program executes" + ("; for the first combination of each program, at each bytecode instruction" if tier == "thorough" else ""),
            "stack": "the same programs with room for 0, 1, 2, ... more calls on the stack, until they no longer notice",
            "failing allocations": "each memory allocation that the program makes"}


def shards(tier):
    return [(k, i) for i in range(PARTS) for k in ("interrupts", "memory", "stack")]


def init_worker():
    os.environ["TZ"] = PARIS
    time.tzset()


def chosen(ctx, i):
    return hist.chosen(i, PARTS, STEP[ctx.tier], 4)


CANARIES = []


def canaries():
    """every program, on two of its combinations of operands, and what it gives"""
    if not CANARIES:
        for _, g in itertools.groupby(hist.compiled(), key=lambda p: p[0]):
            progs = [*g]
            for src, f, vals in {id(p): p for p in (progs[len(progs) // 3], progs[-1])}.values():
                CANARIES.append((src, f, vals, text(f, vals)))
    return CANARIES


def dead(before):
    return [(i, t) for i, (_, f, vals, was) in enumerate(before) if (t := text(f, vals)) != was][:3]


def report(ctx, kind, src, f, vals, got, extra=""):
    lam, ops = program(src, f, vals)
    ctx.fail(f"faults.{kind}({lam}, {ops}{extra})[1]", "nothing", got, setup=SETUP, key=f"{kind} {src} @ {ops}")


def known(progs):
    """the programs, with what they give before any fault"""
    return [(*p, text(*p[2:])) for p in [*progs]]


def others(todo, k):
    """the same program with other operands, where it can give something else"""
    f = todo[k][2]
    lo = hi = k
    while lo and todo[lo - 1][2] is f:
        lo -= 1
    while hi < len(todo) and todo[hi][2] is f:
        hi += 1
    return [j for j in range(lo, hi) if j != k]


def report_then(ctx, kind, p, q, got):
    if got != q[4]:
        lam, ops = program(*p[1:4])
        _, ops2 = program(*q[1:4])
        ctx.fail(f"faults.then({kind!r}, {lam}, ({ops},), {ops2})", q[4], got, setup=SETUP, key=f"{kind} {p[1]} @ {ops} then {ops2}")


def run(ctx, shard):
    kind, i = shard
    gc.collect()
    gc.freeze()
    gc.disable()
    before = canaries()
    try:
        globals()["run_" + kind](ctx, i)
    finally:
        gc.enable()
        gc.unfreeze()
    ctx.transitions += len(before)
    dead_ones(ctx, shard, dead(before))


def dead_ones(ctx, shard, found):
    for i, t in found:
        src, f, vals, was = CANARIES[i]
        lam, ops = program(src, f, vals)
        ctx.fail(f"faults.text({lam}, ({ops},))", was, t, setup=SETUP, key=f"after {shard}: {src}", why=f"after the faults of {shard}")
        ctx.fails[-1]["script"] = SCRIPT.format(verif=VERIF, src=REPO_SRC, prog=src, ops=ops, shard=shard, tier=ctx.tier)


SCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of property C36: after operations were cut short,
    {prog}  with  {ops}
gives another result. The faults of one part of the programs are repeated here."""
import os, sys
os.environ["VERIF_REPO_SRC"] = {src!r}
sys.path.insert(0, {verif!r})
sys.path.insert(0, {src!r})
from mc import core
from mc.checks import c36
c36.init_worker()
ctx = core.Ctx({tier!r}, 1)
c36.run(ctx, {shard!r})
for f in ctx.fails: print(f["expr"], "gives", f["got"], "and gave", f["expected"])
sys.exit(1 if ctx.fails else 0)
'''


def run_interrupts(ctx, i):
    if not faults.python():
        ctx.outcomes["no Python code to interrupt"] += 1
        return
    todo = known(chosen(ctx, i))
    for k, (first, src, f, vals, _) in enumerate(todo):
        for opcodes in (False, True) if ctx.thorough and first else (False,):
            n, got = faults.interrupts(f, *vals, opcodes=opcodes)
            ctx.states += 1
            ctx.transitions += 2 * n
            ctx.traces += n
            if got != "nothing":
                report(ctx, "interrupts", src, f, vals, got, ", opcodes=True" if opcodes else "")
        for j in others(todo, k):
            ctx.transitions += 1
            report_then(ctx, "interrupts", todo[k], todo[j], text(f, todo[j][3]))
    ctx.sample(f"an interruption at each of the {n} lines of {src}"[:150])


def run_stack(ctx, i):
    todo = known(chosen(ctx, i))
    for k, (_, src, f, vals, _) in enumerate(todo):
        n, got = faults.out_of_stack(f, *vals)
        ctx.states += 1
        ctx.transitions += n
        ctx.traces += n
        if got != "nothing":
            report(ctx, "out_of_stack", src, f, vals, got)
        for j in others(todo, k):
            ctx.transitions += 1
            report_then(ctx, "out_of_stack", todo[k], todo[j], text(f, todo[j][3]))
    ctx.sample(f"{src} with room for 0 to {n} calls"[:150])


def run_memory(ctx, i):
    """in child processes, which a failing allocation may well end"""
    if faults.set_nomemory is None:
        ctx.outcomes["allocations can't be made to fail"] += 1
        return
    todo = known(chosen(ctx, i))
    while todo:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.alarm(0)
            os.close(r)
            with os.fdopen(w, "wb") as fh:
                for k, (_, src, f, vals, _) in enumerate(todo):
                    n, got = faults.out_of_memory(f, *vals)
                    changed = [(j, t) for j in others(todo, k) if (t := text(f, todo[j][3])) != todo[j][4]]
                    pickle.dump((k, n, got, changed), fh)
                    fh.flush()
                pickle.dump(("canaries", 0, dead(CANARIES), ()), fh)
            os._exit(0)
        os.close(w)
        done = 0
        with os.fdopen(r, "rb") as fh:
            while True:
                try:
                    k, n, got, changed = pickle.load(fh)
                except (EOFError, pickle.UnpicklingError):
                    break
                if k == "canaries":
                    ctx.transitions += len(CANARIES)
                    dead_ones(ctx, ("memory", i), got)
                    continue
                done = k + 1
                ctx.states += 1
                ctx.transitions += n
                ctx.traces += n
                if got != "nothing":
                    report(ctx, "out_of_memory", *todo[k][1:4], got)
                for j, t in changed:
                    report_then(ctx, "out_of_memory", todo[k], todo[j], t)
        st = os.waitpid(pid, 0)[1]
        if st == 0:
            break
        if faults.python():  # only the interpreter itself can have crashed
            ctx.outcomes["the interpreter crashed"] += 1
        else:
            report(ctx, "crash", *todo[done][1:4], f"wait status {st}")
        todo = todo[done + 1:]
    ctx.sample(f"each allocation of {src if (src := todo[-1][1] if todo else '') else 'a program'} fails"[:150])
