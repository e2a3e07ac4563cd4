"""What an operation costs: lines of library code executed, processor time"""
from __future__ import annotations

import signal
import sys
import time

from .core import REPO_SRC

LINES = 1_000  # for one operation (the longest needs 126)
SECONDS = 0.4  # of processor time (the slowest needs a hundredth of that)


class TooLong(BaseException):
    pass


def _stop(*_):
    raise TooLong


class Alarm:
    """stops a call that takes four times the limit"""

    def __init__(self, limit):
        self.limit = 4 * limit

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, _stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.limit)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


def lines(f, vals, limit=LINES):
    """lines of library code a call executes (no more than the limit)"""
    n = 0

    def local(frame, ev, arg):
        nonlocal n
        if ev == "line":
            n += 1
            if n > limit:
                raise TooLong
        return local

    def glob(frame, ev, arg):
        return local if frame.f_code.co_filename.startswith(REPO_SRC) else None

    with Alarm(SECONDS):
        sys.settrace(glob)
        try:
            f(*vals)
        except (Exception, TooLong):  # noqa: BLE001
            pass
        finally:
            sys.settrace(None)
    return n


def seconds(f, vals, limit=SECONDS):
    """processor time a call takes (no more than four times the limit)"""
    with Alarm(limit):
        t = time.process_time()
        try:
            f(*vals)
        except (Exception, TooLong):  # noqa: BLE001
            pass
        finally:
            t = time.process_time() - t
    return t


def most(vals):
    """the lines allowed: reading a text may take a few per character"""
    return LINES + 5 * sum(len(v) for v in vals if isinstance(v, str))


def prompt(f, *vals, limit=SECONDS):
    """(for the replays)"""
    if lines(f, vals, most(vals)) > most(vals):
        return f"more than {most(vals)} lines of code"
    t = min(seconds(f, vals, limit) for _ in range(3))
    return "promptly" if t < limit else f"more than {limit} seconds"
