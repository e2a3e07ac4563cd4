from __future__ import annotations

from .. import clock  # first: replaces the process clock

import itertools
import os
import time

from whenever import Date, Instant, OffsetDateTime, SystemDateTime, TimeDelta, ZonedDateTime, patch_current_time

from .. import cal, pool, vals
from ..cal import DAY_NS, EPOCH_NS, HOUR_NS, NS
from ..vals import mkI, mkO, mkS, view, eI, eO, eS, eZ
from .c10 import Sub

ID = "C23"
TITLE = "Clock patching shifts, freezes and always restores the current time"

SYS = "America/New_York"
REAL0 = cal.local_ns(2024, 5, 6, 7, 8, 9, 123_456_789)
PINS = {
    "I": cal.local_ns(1980, 3, 2, 2) + 7,
    "Z": cal.local_ns(2023, 3, 25, 12, 30),  # the day before a transition in Amsterdam
    "O": cal.local_ns(1969, 12, 31, 23, 59, 59, 999_999_999),
    "S": cal.local_ns(2023, 11, 4, 17),  # the day before a transition in New York
}
ZKEY = "Europe/Amsterdam"

# events; the alphabet of one history
ENTER = [("enter", k, t) for k in PINS for t in (False, True)]
OTHER = [
    ("exit",), ("raise",), ("tick", NS + 1), ("tick", 5 * DAY_NS),
    ("shift", -1, "h"), ("shift", -1, "d"), ("shift", -1, "n"), ("shift", 0, "h"), ("closed",),
    ("deco", False, 1), ("deco", True, 2), ("decoraise",),
]
EVENTS = ENTER + OTHER


def depth(tier):
    return 4 if tier == "quick" else 5


def bounds(tier):
    return {
        "events": [repr(e) for e in EVENTS],
        "depth": f"all histories of up to {depth(tier)} events from the unpatched state, and of up to {depth(tier) - 1} from one patch of each kind (each then unwound to the unpatched state)",
        "observation": "after every history, and after every step of unwinding: now of every type, today's date",
    }


def shards(tier):
    return [("hist", e, s) for e in range(len(EVENTS)) for s in [None] + list(range(len(ENTER)))] + [("reuse",), ("edges",)]


class Model:
    def __init__(self):
        self.real = REAL0
        self.stack = []  # [kind, moment at pinning, ticking, real time at pinning]
        self.closed = False  # is there a patch that was left

    def now(self, p=None):
        if p is None:
            if not self.stack:
                return self.real
            p = self.stack[-1]
        return p[1] + (self.real - p[3] if p[2] else 0)


def subs():
    return {"Z": Sub(pool.zone(ZKEY), False), "S": Sub(pool.zone(SYS), True)}


SUBS = {}


def shifted(kind, u, how):
    """moment after shifting a value of that kind, or None if not applicable"""
    if how == "h":
        return u + 5 * HOUR_NS
    if how == "n":
        return u - 1
    if how == "d":
        if kind == "I":
            return None
        if kind == "O":
            return u + DAY_NS
        s = SUBS[kind]
        off = s.z.offset(u // NS)
        e = s.to(u + off * NS + DAY_NS, None, off)
        return e[3] if kind == "S" else e[4]


KW = {"h": {"hours": 5}, "n": {"nanoseconds": -1}, "d": {"days": 1}}


def pin(kind):
    u = PINS[kind]
    return {"I": mkI, "Z": lambda u: mkI(u).to_tz(ZKEY), "O": lambda u: mkO(u, 5400), "S": mkS}[kind](u)


class Boom(Exception):
    pass


class Impl:
    """the real code: context managers entered and left by hand"""

    def __init__(self):
        self.real = REAL0
        clock.set(self.real - EPOCH_NS)
        self.stack = []  # (context manager, patch, kind)
        self.closed = None

    def step(self, ev, m):
        k = ev[0]
        if k == "enter":
            cm = patch_current_time(pin(ev[1]), keep_ticking=ev[2])
            p = cm.__enter__()
            self.stack.append((cm, p, ev[1]))
            m.stack.append([ev[1], PINS[ev[1]], ev[2], m.real])
        elif k == "exit":
            cm, p, kind = self.stack.pop()
            cm.__exit__(None, None, None)
            self.closed = (p, kind)
            m.stack.pop()
        elif k == "raise":
            cm, p, kind = self.stack.pop()
            e = Boom()
            try:
                swallowed = cm.__exit__(Boom, e, None)
            except Boom:
                swallowed = False
            if swallowed:
                return "exception swallowed"
            self.closed = (p, kind)
            m.stack.pop()
        elif k == "tick":
            self.real += ev[1]
            m.real = self.real
            clock.set(self.real - EPOCH_NS)
        elif k == "shift":
            _, p, kind = self.stack[ev[1]]
            e = m.stack[ev[1]]
            e[1], e[3] = shifted(kind, m.now(e), ev[2]), m.real
            p.shift(**KW[ev[2]], **({"ignore_dst": True} if kind == "O" else {}))
        elif k == "closed":
            p, kind = self.closed
            p.shift(hours=5, **({"ignore_dst": True} if kind == "O" else {}))
        elif k == "deco":
            return self.deco(m, ev[1], ev[2])
        elif k == "decoraise":
            i = mkI(PINS["I"])

            @patch_current_time(i, keep_ticking=False)
            def f():
                if Instant.now() != i:
                    return "not patched inside"
                raise Boom()

            try:
                r = f()
                return r or "exception swallowed"
            except Boom:
                pass

    def deco(self, m, ticking, levels):
        i = mkI(PINS["I"])
        got = []

        @patch_current_time(i, keep_ticking=ticking)
        def f(n):
            got.append(Instant.now())
            clock.set(clock.NOW + 3)
            if n > 1:
                f(n - 1)
            got.append(Instant.now())

        real = clock.NOW
        f(levels)
        f(levels)  # a decorated function can be called again
        clock.set(real)
        t = 3 if ticking else 0
        want = [i.timestamp_nanos() + d for d in ([0, t] if levels == 1 else [0, 0, t, 2 * t])] * 2
        if [x.timestamp_nanos() for x in got] != want:
            return f"inside the decorated function: {got}, expected {want}"


def enabled(ev, m):
    k = ev[0]
    if k in ("exit", "raise"):
        return bool(m.stack)
    if k == "shift":
        if not m.stack or (ev[1] == 0 and len(m.stack) < 2):
            return False
        return not (ev[2] == "d" and m.stack[ev[1]][0] == "I")
    if k == "closed":
        return m.closed
    return True


def observe():
    return (
        Instant.now().timestamp_nanos(),
        view(OffsetDateTime.now(-3, ignore_dst=True)),
        view(ZonedDateTime.now(ZKEY)),
        view(SystemDateTime.now()),
        view(Date.today_in_system_tz()),
    )


_memo = {}


def predict(u):
    if u not in _memo:
        if len(_memo) > 20000:
            _memo.clear()
        zo, so = SUBS["Z"].z.offset(u // NS), SUBS["S"].z.offset(u // NS)
        _memo[u] = (u - EPOCH_NS, eO(u, -3 * 3600), eZ(ZKEY, u, zo), eS(u, so), ("D", *cal.civil((u + so * NS) // DAY_NS)))
    return _memo[u]


def fail(ctx, hist, why, exp, got):
    ctx.fail("history " + "; ".join(map(repr, hist)), repr(exp), repr(got), why=why, setup="", key=repr(hist) + why)
    ctx.fails[-1]["script"] = SCRIPT.format(verif=core_verif(), src=core_src(), hist=hist, why=why)


def core_verif():
    from .. import core

    return core.VERIF


def core_src():
    from .. import core

    return core.REPO_SRC


SCRIPT = '''#!/opt/venv/bin/python
"""Replay of a violation of C23: {why}"""
import sys, os
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-cache"
sys.path.insert(0, {verif!r})
sys.path.insert(0, {src!r})
from mc.checks import c23
bad = c23.replay({hist!r})
print(bad or "as expected")
sys.exit(1 if bad else 0)
'''


def execute(hist):
    """run a history on both; mismatch or None. Ends unpatched."""
    impl, m = Impl(), Model()
    err = None
    try:
        for ev in hist:
            try:
                err = impl.step(ev, m)
            except Exception as e:  # noqa: BLE001
                err = f"{type(e).__name__}: {e}"
            if ev[0] in ("exit", "raise"):
                m.closed = True
            if err:
                return ("during " + repr(ev), "no error", err), m
        got = observe()
        if got != predict(m.now()):
            return ("after the history", predict(m.now()), got), m
        final = ([list(p) for p in m.stack], m.real, m.closed)
        while impl.stack:
            cm, p, kind = impl.stack.pop()
            cm.__exit__(None, None, None)
            m.stack.pop()
            got = observe()
            if got != predict(m.now()):
                return (f"after leaving back to depth {len(m.stack)}", predict(m.now()), got), m
        m.stack = final[0]
        return None, m
    finally:
        # leave nothing patched for the next history
        while impl.stack:
            try:
                impl.stack.pop()[0].__exit__(None, None, None)
            except Exception:  # noqa: BLE001
                pass


def replay(hist):
    init()
    try:
        return execute([tuple(e) for e in hist])[0]
    finally:
        clock.set(None)


def init():
    os.environ["TZ"] = SYS
    time.tzset()
    SUBS.update(subs())


def run_hist(ctx, first, start):
    n = depth(ctx.tier) - (start is not None)
    prefix = [] if start is None else [ENTER[start]]
    stack = [prefix + [EVENTS[first]]]
    while stack:
        h = stack.pop()
        bad = None
        m = Model()
        # is the last event enabled? (the earlier ones were)
        pm = MODELS.get(tuple(h[:-1])) if len(h) > 1 else Model()
        if pm is None:
            pm = execute(h[:-1])[1]
        if not enabled(h[-1], pm):
            ctx.outcomes["not enabled"] += 1
            continue
        bad, m = execute(h)
        ctx.states += 1
        ctx.transitions += len(h)
        ctx.traces += 1
        if bad:
            fail(ctx, h, *bad)
            continue
        ctx.outcomes[f"stack depth {len(m.stack)}"] += 1
        if len(h) - len(prefix) < n:
            MODELS[tuple(h)] = m
            stack.extend(h + [e] for e in EVENTS)
    MODELS.clear()
    ctx.sample(repr(h))


MODELS = {}


def run_reuse(ctx):
    """with-statement forms, exceptions through several levels, generators and threads of control"""
    m = Model()
    clock.set(REAL0 - EPOCH_NS)
    i, j = pin("I"), pin("Z")

    def want(label, exp):
        ctx.states += 1
        ctx.traces += 1
        if observe() != predict(exp):
            fail(ctx, [], label, predict(exp), observe())

    for t1, t2 in itertools.product((False, True), repeat=2):
        with patch_current_time(i, keep_ticking=t1) as p:
            want("with", PINS["I"])
            with patch_current_time(j, keep_ticking=t2):
                want("nested with", PINS["Z"])
                p.shift(hours=5)
                want("outer shifted inside", PINS["Z"])
            want("outer again", PINS["I"] + 5 * HOUR_NS)
        want("restored", REAL0)
        try:
            with patch_current_time(i, keep_ticking=t1):
                with patch_current_time(j, keep_ticking=t2):
                    raise Boom()
        except Boom:
            pass
        want("restored after an exception through two levels", REAL0)
        # many levels, shifts by several steps
        import contextlib

        with contextlib.ExitStack() as st:
            ps = [st.enter_context(patch_current_time(pin(k), keep_ticking=t1 if n % 2 else t2)) for n, k in enumerate("IZOSIZOS")]
            want("eight levels", PINS["S"])
        want("restored after eight levels", REAL0)
        with patch_current_time(i, keep_ticking=t1) as p:
            p.shift(hours=3)
            p.shift(hours=-1, nanoseconds=1)
            p.shift(TimeDelta(minutes=2)) if False else None
            want("two shifts", PINS["I"] + 2 * HOUR_NS + 1)
        want("restored", REAL0)
        for stop in (KeyboardInterrupt, SystemExit, GeneratorExit):
            try:
                with patch_current_time(i, keep_ticking=t1):
                    raise stop()
            except stop:
                pass
            want(f"restored after {stop.__name__}", REAL0)
        # the functions bound before the patch follow it as well
        now = Instant.now
        with patch_current_time(i, keep_ticking=t1):
            if now() != i:
                fail(ctx, [], "bound now", i, now())
        want("restored", REAL0)
    ctx.sample("with, ExitStack, exceptions of every kind")


def run_edges(ctx):
    """pins at the edges of the range and of transitions"""
    z = pool.zone(ZKEY)
    us = sorted({0, 1, DAY_NS, cal.LOCAL_MAX, cal.LOCAL_MAX - DAY_NS} | set(pool.BOUNDARY_UTC) | set(pool.edge_instants(z, pool.recent(z)[-4:])))
    for u in us:
        for ticking in (False, True):
            for d in (0, 1, NS, HOUR_NS):
                clock.set(REAL0 - EPOCH_NS)
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                with patch_current_time(mkI(u), keep_ticking=ticking):
                    clock.set(REAL0 - EPOCH_NS + d)
                    v = u + (d if ticking else 0)
                    if not cal.in_range(v):
                        continue
                    got = Instant.now().timestamp_nanos() + EPOCH_NS
                    if got != v:
                        fail(ctx, [], f"pin at {u}, ticking={ticking}, after {d} ns", v, got)
                    if cal.in_range(v + z.offset(v // NS) * NS) and view(ZonedDateTime.now(ZKEY)) != eZ(ZKEY, v, z.offset(v // NS)):
                        fail(ctx, [], f"pin at {u}, ticking={ticking}, after {d} ns (zoned)", v, ZonedDateTime.now(ZKEY))
    ctx.sample(f"{len(us)} pins")


def run(ctx, shard):
    kind, *a = shard
    init()
    try:
        globals()["run_" + kind](ctx, *a)
    finally:
        clock.set(None)
