"""A controlled process clock. Import this before `whenever`."""
import sys
import time

assert "whenever" not in sys.modules, "the clock must be replaced before the library is imported"
_real_ns, _real = time.time_ns, time.time
NOW = None  # UNIX nanoseconds, or None for the real clock


def time_ns():
    return _real_ns() if NOW is None else NOW


def _time():
    return _real() if NOW is None else NOW / 1e9


time.time_ns = time_ns
time.time = _time


def set(ns):
    global NOW
    NOW = ns
