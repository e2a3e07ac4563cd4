"""What an operation leaves behind: memory blocks, heap memory, references"""
from __future__ import annotations

import ctypes
import datetime
import gc
import os
import sys
import zoneinfo

import whenever

_blocks = sys.getallocatedblocks
_refs = sys.getrefcount
TYPES = [getattr(whenever, n) for n in ("Date", "Time", "YearMonth", "MonthDay", "TimeDelta", "DateDelta", "DateTimeDelta", "Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime", "LocalDateTime",
                                        "Weekday", "SkippedTime", "RepeatedTime", "InvalidOffset", "ImplicitlyIgnoringDST")]
SHARED = TYPES + [whenever, zoneinfo.ZoneInfo, zoneinfo.ZoneInfoNotFoundError, zoneinfo.ZoneInfo("Europe/Paris"), zoneinfo.ZoneInfo("UTC"), datetime.datetime, datetime.timezone]


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


try:
    _mallinfo2 = ctypes.CDLL(None).mallinfo2
    _mallinfo2.restype = _Mallinfo2
    _mallinfo2.argtypes = []

    def _heap():
        m = _mallinfo2()
        return m.uordblks + m.hblkhd

except (OSError, AttributeError):

    def _heap():
        return 0


def repeat(f, vals, n):
    for _ in range(n):
        try:
            f(*vals)
        except Exception:  # noqa: BLE001
            pass


def _consts(f):
    """the program's own constants"""
    return [c for c in getattr(getattr(f, "__code__", None), "co_consts", ()) if isinstance(c, (str, tuple, float))]


def quick(f, vals, n=12, before=3):
    """is it plain that nothing stays behind?"""
    kept = (*vals, *_consts(f))
    repeat(f, vals, before)
    refs = [_refs(v) for v in kept]
    shared = [*map(_refs, SHARED)]
    h = _heap()
    a = _blocks()
    repeat(f, vals, n)
    d = _blocks() - a
    h = _heap() - h
    if not (-n < 2 * d < n and h < 16 * n):
        return False
    return all(-n < 2 * (_refs(v) - r) < n for v, r in zip(kept, refs)) and all(-n < 2 * (_refs(v) - r) < n for v, r in zip(SHARED, shared))


def what_stays(f, *vals, n=400):
    """'nothing', or what each call leaves behind"""
    found = "nothing"
    kept = (*vals, *_consts(f))
    for _ in range(4):
        repeat(f, vals, 20)
        gc.collect()
        refs = [_refs(v) for v in kept]
        shared = [*map(_refs, SHARED)]
        h, a = _heap(), _blocks()
        repeat(f, vals, n)
        gc.collect()
        d, h = _blocks() - a, _heap() - h
        found = []
        if abs(d) > n // 2:
            found.append(f"{round(d / n)} memory blocks")
        elif h > 8 * n:
            found.append(f"{h // n} bytes of heap memory")
        for v, r in zip(kept, refs):
            if abs(_refs(v) - r) > n // 2:
                found.append(f"{round((_refs(v) - r) / n)} references to {v!r}")
        for v, r in zip(SHARED, shared):
            if abs(_refs(v) - r) > n // 2:
                found.append(f"{round((_refs(v) - r) / n)} references to {v!r}")
        if not found:
            return "nothing"
    return ", ".join(found)


def growth(f, n):
    """blocks per call that stay behind over calls with ever new operands, once caches had 2n entries"""
    for i in range(2 * n):
        try:
            f(i)
        except Exception:  # noqa: BLE001
            pass
    gc.collect()
    h, a, o = _heap(), _blocks(), open_files()
    for i in range(2 * n, 3 * n):
        try:
            f(i)
        except Exception:  # noqa: BLE001
            pass
    gc.collect()
    d, h, o = _blocks() - a, _heap() - h, open_files() - o
    return f"{o} files left open" if o > 8 else "bounded" if d < n // 4 and h < 32 * n else f"{d / n:.2f} blocks, {h / n:.1f} heap bytes per call"


class Chain:
    """x = f(x, 0), f(x, 1), ... (the last value is kept)"""

    def __init__(self, x, f):
        self.x, self.f = x, f

    def __call__(self, n):
        self.x = self.f(self.x, n)

    def works(self):
        x = self.x
        try:
            for n in range(9):
                x = self.f(x, n)
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"
        return "it does" if type(x) is type(self.x) else f"a {type(x).__name__}"


def open_files():
    return len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0
