"""The Rust extension, explored with the same models and within the same bounds as the Python implementation"""
from __future__ import annotations

import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from .. import core, rustimpl

ID = "C30"
TITLE = "The Rust extension meets the same specification"
ALL = [f"C{n:02}" for n in range(1, 30)] + ["C31", "C32", "C33", "C34", "C35", "C36", "C37"]
MAX_JOBS = 3
FIRST = ["C24", "C12", "C10", "C08", "C14", "C17", "C01", "C31"]
ASSUMPTIONS = [
    "the extension is built by rustc from the working tree's src/ against a stand-in for the pyo3-ffi declarations (rust/pyo3_ffi.rs), with release semantics",
    "pickles that were not produced by pickling are not part of the comparison: the extension doesn't validate them",
    "if the extension cannot be built here (e.g. it starts using declarations the stand-in lacks), nothing is decided: the evidence then shows 0 states",
]
RULE = "sums over the 36 explorations, each executed against the extension: states, operations and replayed model traces as defined there"
DEADLINE = {"quick": 700, "thorough": 5 * 3600}
T0 = time.monotonic()
BUILD = None  # (folder, reason)


def bounds(tier):
    return {"checks run against the extension": ALL, "tier of each": tier}


def shards(tier):
    global BUILD
    try:
        BUILD = (rustimpl.build(os.path.dirname(core.REPO_SRC.rstrip("/")), core.REPO_SRC), "")
    except rustimpl.CannotBuild as e:
        BUILD = (None, str(e))
        print(f"NOTE: the extension can't be built here, nothing is decided: {str(e)[-400:]}")
        return [None]
    # the longest first
    return FIRST + [c for c in ALL if c not in FIRST]


HEAD = re.compile(r"^VIOLATION property=(\S+) replay=(\S+)$", re.M)


def run(ctx, c):
    if c is None:
        ctx.sample("not built: " + BUILD[1][-300:])
        return

    left = (DEADLINE[ctx.tier] - (time.monotonic() - T0))
    if left < 20:
        ctx.outcomes["undecided (out of time)"] += 1
        return
    signal.alarm(0)  # the explorations have their own limits
    out = tempfile.mkdtemp(prefix="c30-")
    try:
        env = {**os.environ, "VERIF_REPO_SRC": BUILD[0], "VERIF_OUT": out, "VERIF_SEED": str(ctx.seed), "VERIF_JOBS": str(max(2, (os.cpu_count() or 4) // 2))}
        env.pop("PYTHONPATH", None)
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(core.VERIF, "check.py"), c, ctx.tier], env=env, capture_output=True, text=True,
                               cwd=core.VERIF, stdin=subprocess.DEVNULL, timeout=left)
        except subprocess.TimeoutExpired:
            ctx.outcomes["undecided (out of time)"] += 1
            return
        m = HEAD.search(p.stdout)
        if p.returncode == 1 and m:
            for m in list(HEAD.finditer(p.stdout))[:3]:
                rest = p.stdout[m.end():].split("VIOLATION")[0].strip()[:700]
                script = open(m[2]).read()
                ctx.fails.append(dict(key=f"{c} (Rust extension): {rest}", setup="", expr=c, expected="as above", got="as above", why="", script=script))
            return
        if p.returncode != 0:
            raise RuntimeError(f"{c}: exit code {p.returncode}\n{(p.stdout + p.stderr)[-2000:]}")
        ev = json.load(open(os.path.join(out, "evidence", f"{c}.json")))["coverage"]
        ctx.states += ev["states"]
        ctx.transitions += ev["transitions"]
        ctx.traces += ev["traces_validated_against_impl"]
        ctx.outcomes["explorations without a violation"] += 1
        ctx.samples.append(f"{c}: {ev['states']} states; {ev['samples'][0]}"[:300])
    finally:
        shutil.rmtree(out, ignore_errors=True)
