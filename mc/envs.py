"""Interpreter surroundings: applied before the library is imported.

Only the standard library is used here, and only what the environment needs.
"""
from __future__ import annotations

import os
import sys

LOCALES = ("de_DE", "tr_TR", "fa_IR", "ja_JP")

# name -> (interpreter flags, environment variables, what)
ENVS = {
    "O": (["-O"], {}, "assertions off"),
    "OO": (["-OO"], {}, "assertions and docstrings off"),
    "seed": ([], {"PYTHONHASHSEED": "12345"}, "another hash seed"),
    "warn": (["-W", "error", "-X", "dev"], {}, "development mode, warnings are errors"),
    "ascii": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONIOENCODING": "ascii:backslashreplace", "PYTHONCOERCECLOCALE": "0"}, "ASCII I/O and file system encoding"),
    "decimal": ([], {}, "decimal context of 3 digits, rounding up, that traps inexact results"),
    "digits": ([], {}, "integers are limited to 640 digits of text"),
    "stdlib": ([], {}, "the standard library's Python implementations of datetime and zoneinfo (as on PyPy)"),
    "tz": ([], {}, "another system timezone (for everything but the system type)"),
    "patched": ([], {}, "the current time patched to another century"),
    "thread": ([], {}, "not on the main thread"),
    "fork": ([], {}, "in a forked child of a process that used the library"),
    "sub": ([], {}, "in a subinterpreter"),
    "gc": ([], {}, "garbage collection at every allocation of a container (every 8th program)"),
    **{f"locale:{k}": ([], {}, f"locale {k}") for k in LOCALES},
    "combo": (["-OO"], {"PYTHONHASHSEED": "777"}, "-OO, another hash seed, a decimal context of 3 digits, 640-digit integers, a non-Latin locale"),
}
HOW = ("tz", "patched", "thread", "fork", "sub", "gc")  # see mc/hist.py


def apply():
    """to be called first thing in the process; VERIF_ENV names the environment"""
    name = os.environ.get("VERIF_ENV", "")
    if name == "stdlib":
        sys.modules["_datetime"] = None
        sys.modules["_zoneinfo"] = None
    if name in ("decimal", "combo"):
        import decimal

        for c in (decimal.getcontext(), decimal.DefaultContext):
            c.prec = 3
            c.rounding = decimal.ROUND_UP
            c.traps[decimal.Inexact] = True
    if name in ("digits", "combo"):
        sys.set_int_max_str_digits(640)
    if name.startswith("locale:") or name == "combo":
        import locale

        try:
            locale.setlocale(locale.LC_ALL, (name[7:] or "fa_IR") + ".UTF-8")
        except locale.Error:
            if name != "combo":
                raise


def command(name, locpath=None):
    """(interpreter and flags, environment) to run something in the environment"""
    flags, env, _ = ENVS.get(name, ([], {}, ""))
    e = {"PYTHONHASHSEED": "0", **os.environ, **env, "VERIF_ENV": name}
    if locpath:
        e["LOCPATH"] = locpath
    return [sys.executable, *flags, "-B"], e


def make_locales(d) -> list[str]:
    """compile locales into the folder d (for LOCPATH); gives those that work"""
    import subprocess

    out = []
    for k in LOCALES:
        try:
            subprocess.run(["localedef", "-i", k, "-f", "UTF-8", os.path.join(d, k + ".UTF-8")], capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
        except (OSError, subprocess.TimeoutExpired):
            break
        if os.path.isdir(os.path.join(d, k + ".UTF-8")):
            out.append(k)
    return out
