"""Synthetic time zones: every combination of a few offsets around one or two
transitions, written as TZif files in a scratch directory on zoneinfo's path."""
from __future__ import annotations

import atexit
import itertools
import os
import shutil
import tempfile
import zoneinfo

from . import pool, tzmodel
from .cal import EPOCH_S

_dir = None
_pid = None
OFFS = [0, 3600, -3600, 1800, -5 * 3600, 5 * 3600 + 45 * 60, 14 * 3600, -12 * 3600, 1172, -2670, 7200, 20 * 60]
T0 = 1_600_000_000 - 1_600_000_000 % 86400 + 86400 * 3  # a UTC midnight in 2020


def specs(tier):
    """(key, first_off, [(unix, off)], footer)"""
    out = []
    hours = [0, 1, 2, 3, 12, 23] if tier == "thorough" else [0, 2, 23]
    n = 0
    for a, b in itertools.permutations(OFFS, 2):
        for h in hours:
            if abs(a - b) > 26 * 3600:
                continue
            out.append((f"Mc/One{n}", a, [(T0 + h * 3600 - a, b)], ""))
            n += 1
    # two opposite transitions at increasing distance
    n = 0
    for a, b in ((0, 3600), (3600, 0), (3600, 1800), (-5 * 3600, -4 * 3600), (0, -3600), (7200, 0)):
        for gap in (1, 2, 6, 24, 25, 48, 24 * 60, 24 * 180):
            d = abs(a - b)
            t1 = T0 + 2 * 3600 - a
            t2 = t1 + gap * 3600 + d
            out.append((f"Mc/Two{n}", a, [(t1, b), (t2, a)], ""))
            n += 1
    # rule based
    for n, f in enumerate((
        "AAA-1BBB,M3.5.0,M10.5.0/3", "AAA5BBB,M3.2.0,M11.1.0", "AAA-10:30BBB-11,M10.1.0,M4.1.0", "AAA-1BBB0,M10.5.0,M3.5.0/1",
        "AAA3BBB2,M3.5.0/-2,M10.5.0/-1", "AAA-2BBB,M3.4.4/50,M10.4.4/50", "AAA3BBB,J60,J300/0", "AAA-9:15BBB,J62/24,J299/0",
        "AAA0BBB-2,M3.5.0/1,M10.5.0/3", "AAA4", "AAA-5:45:30")):
        r = tzmodel.Rule(f)
        out.append((f"Mc/Rule{n}", r.std, [(-2_000_000_000, r.std + 60), (-1_900_000_000, r.std)], f))
    return out


def install(tier):
    """write the files (once), put the directory on zoneinfo's search path"""
    global _dir, _pid
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="verif-tz-")
        _pid = os.getpid()
        atexit.register(_cleanup)
        os.mkdir(os.path.join(_dir, "Mc"))
        for key, first, trans, footer in specs(tier):
            types = [first] + [o for _, o in trans]
            tr = [(t, i + 1) for i, (t, _) in enumerate(trans)]
            if pool.NO_SINGLE and len(tr) == 1:
                tr = [(-2_000_000_000, 0)] + tr
            data = tzmodel.tzif(types, tr, footer)
            with open(os.path.join(_dir, key), "wb") as fh:
                fh.write(data)
    zoneinfo.reset_tzpath(to=[_dir, tzmodel.ZONEINFO])


def _cleanup():
    if _dir and os.getpid() == _pid:
        shutil.rmtree(_dir, ignore_errors=True)


def model(spec):
    key, first, trans, footer = spec
    return tzmodel.Zone(key, os.path.join(_dir, key))
