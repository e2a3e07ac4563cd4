"""Operations that are stopped half-way: by an exception raised at a chosen
point of the library's code, or by a chosen memory allocation that fails"""
from __future__ import annotations

import os
import pickle
import sys

import whenever

from .hist import snap, text

try:
    from _testcapi import remove_mem_hooks, set_nomemory
except ImportError:
    set_nomemory = None

HERE = os.path.dirname(os.path.abspath(whenever.__file__)) + os.sep
CALM = 9  # so many evaluations in a row that a failing allocation didn't change: none of them reached it


class Interruption(BaseException):
    pass


def base(f, vals):
    """what the operation gives when nothing interferes"""
    return text(f, vals)


_own: dict = {}


def _is_own(code):
    r = _own.get(code)
    if r is None:
        r = _own[code] = os.path.abspath(code.co_filename).startswith(HERE)
    return r


def _stopped_at(f, vals, k, opcodes):
    """evaluate, with an Interruption at the k-th point (-1: nowhere); gives the number of points passed, what came, and where"""
    n = 0
    boom = Interruption()
    where = ""

    def local(frame, event, _):
        nonlocal n, where
        if event == "opcode" if opcodes else event == "line":
            if n == k:
                n += 1
                where = f"{frame.f_code.co_qualname}, line {frame.f_lineno}"
                raise boom
            n += 1
        return local

    def trace(frame, event, _):
        if not _is_own(frame.f_code):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local

    sys.settrace(trace)
    try:
        f(*vals)
        got = "a result"
    except Interruption as e:
        got = "" if e is boom else "another exception"
    except BaseException as e:  # noqa: BLE001
        got = type(e).__name__
    finally:
        sys.settrace(None)
    return n, got, where


def interrupts(f, *vals, opcodes=False, once=None):
    """(number of points, what is wrong): an Interruption at every point of the library's code that the operation passes"""
    want = base(f, vals)
    before = [snap(v) for v in vals]
    total, _, _ = _stopped_at(f, vals, -1, opcodes)
    for k in range(total) if once is None else [once]:
        n, got, where = _stopped_at(f, vals, k, opcodes)
        if n <= k:
            continue  # a shorter way, this time
        if got:
            return total, f"interrupted at {where}: {got}, instead of the interruption"
        if [snap(v) for v in vals] != before:
            return total, f"interrupted at {where}: an operand changed"
        if base(f, vals) != want:
            return total, f"interrupted at {where}: from then on, the operation gives {base(f, vals)}"
    return total, "nothing"


def out_of_memory(f, *vals, limit=3000):
    """(number of evaluations, what is wrong): every single memory allocation of the operation fails once"""
    want = base(f, vals)
    before = [snap(v) for v in vals]
    failing = want.isidentifier()
    calm = 0
    for i in range(limit):
        r = e = x = None
        try:
            set_nomemory(i, i + 1)
            try:
                r = f(*vals)
            except BaseException as x:  # noqa: BLE001, F841
                e = x
        except MemoryError as y:
            e = y
        finally:
            remove_mem_hooks()
        if e is None:
            t = text(lambda: r, ())
            if t != want:
                return i, f"allocation {i} failed: the operation gives {t}"
            calm += 1
            if calm >= CALM:
                break
            continue
        if type(e).__name__ == want != "MemoryError":
            calm += 1
            if calm >= CALM:
                break
            continue
        calm = 0
        if not failing and not isinstance(e, (MemoryError, SystemError, pickle.PickleError)) and _raised_here(e):
            return i, f"allocation {i} failed: {type(e).__name__} ({e})"
    if [snap(v) for v in vals] != before:
        return i, "an operand changed"
    if base(f, vals) != want:
        return i, f"from then on, the operation gives {base(f, vals)}"
    return i, "nothing"


def out_of_stack(f, *vals, limit=200):
    """(number of evaluations, what is wrong): the operation with room for so many more calls on the stack, from none on"""
    want = base(f, vals)
    before = [snap(v) for v in vals]
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    normal = sys.getrecursionlimit()
    calm = 0
    for i in range(limit):
        r = e = x = None
        try:
            sys.setrecursionlimit(depth + 2 + i)
            r = f(*vals)
        except BaseException as x:  # noqa: BLE001, F841
            e = x
        finally:
            sys.setrecursionlimit(normal)
        t = text(lambda: r, ()) if e is None else type(e).__name__
        if t == want:
            calm += 1
            if calm >= CALM:
                break
        elif e is None:
            return i, f"with room for {i} calls: the operation gives {t}"
        elif not isinstance(e, RecursionError) and _raised_here(e):
            return i, f"with room for {i} calls: {t} ({e})"
        else:
            calm = 0
    if [snap(v) for v in vals] != before:
        return i, "an operand changed"
    if base(f, vals) != want:
        return i, f"from then on, the operation gives {base(f, vals)}"
    return i, "nothing"


def _raised_here(e):
    """by the library (and not by the interpreter or the standard library, some of which don't tell a lack of memory)"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not python():
        return True
    return _is_own(tb.tb_frame.f_code)


def python():
    """is it the implementation in Python?"""
    return hasattr(whenever.Date.add, "__code__")


def then(kind, f, vals, *others, **kw):
    """what the operation gives on other operands, after faults on these"""
    globals()[kind](f, *vals, **kw)
    return text(f, others)


def crash(f, *vals):
    """(wait status, 'nothing' or what ended the process): out_of_memory, in a process of its own"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        out_of_memory(f, *vals)
        os._exit(0)
    st = os.waitpid(pid, 0)[1]
    return st, "nothing" if st == 0 else f"wait status {st}"
