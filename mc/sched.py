"""Controlled scheduler: two real threads run library operations, switching
only where told to. A scheduling point is a line (or opcode) event in the
library's source files; everything between two points is one step."""
from __future__ import annotations

import collections.abc
import signal
import sys
import threading
import types

from .core import REPO_SRC, call

INF = 1 << 60
STALL = 1.0


class State:
    """Module-level mutable state of the library, restored before a run, so
    that every schedule starts from the same state"""

    def __init__(self):
        self.saved = []
        self.clear = []
        self.names = []  # (namespace, its dictionary, what it held)
        seen = set()
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] != "whenever" or m is None:
                continue
            self._walk(m.__dict__, seen)
            self.names.append((m, m.__dict__, dict(m.__dict__)))

    def _walk(self, ns, seen):
        for k, v in list(ns.items()):
            if id(v) in seen or k.startswith("__"):
                continue
            seen.add(id(v))
            if isinstance(v, (list, set, bytearray, collections.abc.MutableMapping)) and not isinstance(v, types.MappingProxyType):
                try:
                    self.saved.append((v, v.copy() if hasattr(v, "copy") else dict(v)))
                except Exception:  # noqa: BLE001
                    pass
            elif callable(getattr(v, "cache_clear", None)):
                self.clear.append(v.cache_clear)
            elif isinstance(v, type) and getattr(v, "__module__", "").startswith("whenever"):
                self._walk(dict(v.__dict__), seen)
                if type(v).__setattr__ is type.__setattr__ and v.__flags__ & (1 << 9):
                    self.names.append((v, v.__dict__, dict(v.__dict__)))
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            if isinstance(v, types.FunctionType) and v.__module__.startswith("whenever"):
                for d in [*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values(), *(c.cell_contents for c in v.__closure__ or () if _filled(c))]:
                    if isinstance(d, (list, dict, set)) and id(d) not in seen:
                        seen.add(id(d))
                        self.saved.append((d, d.copy()))

    def restore(self):
        for o, now, was in self.names:
            if now != was:
                for k in [k for k in now if k not in was]:
                    delattr(o, k)
                for k, v in was.items():
                    if now.get(k, o) is not v:
                        setattr(o, k, v)
        for v, c in self.saved:
            if v != c or len(v) != len(c):
                v.clear()
                v.extend(c) if isinstance(v, (list, bytearray)) else v.update(c)
        for f in self.clear:
            f()


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class Scheduler:
    def __init__(self, opcodes=False):
        self.opcodes = opcodes
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = threading.Semaphore(0)
        self.start = [threading.Semaphore(0), threading.Semaphore(0)]
        self.job = [None, None]
        self.result = [None, None]
        self.stalls = 0
        for i in (0, 1):
            threading.Thread(target=self._thread, args=(i,), daemon=True).start()

    # -- inside the controlled threads
    def _trace(self, i):
        src = REPO_SRC
        event = "opcode" if self.opcodes else "line"

        def local(frame, ev, arg):
            if ev == event:
                self._point(i)
            return local

        def glob(frame, ev, arg):
            if frame.f_code.co_filename.startswith(src):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def _point(self, i):
        """one more step of thread i is about to run"""
        self.ticks += 1
        if self.free:
            return
        if self.left == 0:
            self._next(i)
            self._wait(i)
        self.left -= 1

    def _next(self, i):
        """hand over to the thread of the next segment"""
        while True:
            self.seg += 1
            t, n = self.plan[self.seg] if self.seg < len(self.plan) else (1 - i, INF)
            if not self.fin[t]:
                break
            if all(self.fin):
                return
        self.left = n
        self.cur = t
        if t != i:
            self.go[t].release()
        else:
            self.go[i].release()

    def _wait(self, i):
        while not self.go[i].acquire(timeout=STALL):
            if self.free:
                return
            # the other thread makes no step: it waits for a lock this one holds
            if self.ticks == self.last_tick:
                self.stalls += 1
                self.free = True
                return
            self.last_tick = self.ticks

    def _thread(self, i):
        trace = self._trace(i)
        while True:
            self.start[i].acquire()
            f, a = self.job[i]
            self._wait(i)
            sys.settrace(trace)
            try:
                r = call(f, *a)
            finally:
                sys.settrace(None)
            self.result[i] = r
            self.fin[i] = True
            if self.cur == i or self.free:
                if not all(self.fin):
                    self._next(i)
            self.done.release()

    # -- controller
    def run(self, jobs, plan):
        """results of two operations under the schedule: [(thread, steps), ...]"""
        self.plan = plan
        self.seg = 0
        self.fin = [False, False]
        self.free = False
        self.ticks = 0
        self.last_tick = -1
        self.job = list(jobs)
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.cur, self.left = plan[0]
        self.go[self.cur].release()
        for s in self.start:
            s.release()
        self.done.acquire()
        self.done.acquire()
        return self.result

    def steps(self, job):
        """number of steps of one operation run alone"""
        self.run([job, (int, ())], [(0, INF), (1, INF)])
        return self.ticks


class Stuck(Exception):
    """the operation in the middle waits for ever"""


def _stuck(*_):
    raise Stuck


class Nested:
    """One operation in the middle of another, in the same thread: as a signal handler, a finalizer or a callback would run it"""

    PATIENCE = 20

    def run(self, job, at, inner=None):
        """the results of both, the inner one before the outer one's at-th line"""
        self.count = 0
        self.got = None

        def local(frame, ev, arg):
            if ev == "line":
                if self.count == at:
                    self.got = call(inner[0], *inner[1])
                self.count += 1
            return local

        def glob(frame, ev, arg):
            return local if frame.f_code.co_filename.startswith(REPO_SRC) else None

        old = signal.signal(signal.SIGALRM, _stuck)
        signal.alarm(self.PATIENCE)
        sys.settrace(glob)
        try:
            r = call(job[0], *job[1])
        finally:
            sys.settrace(None)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return r, self.got

    def steps(self, job):
        self.run(job, -1)
        return self.count
