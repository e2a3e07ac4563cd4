"""Runs every program of a fixed list once in a given global order, in a fresh
process, and writes what each of them gave.

usage: python -m mc.hist ORDER OUT [SHOW]
"""
from __future__ import annotations

import itertools
import os
import pickle
import re
import sys
import time
import zlib

ENV = os.environ.get("VERIF_ENV", "")
PARIS = "Europe/Paris"
if __name__ == "__main__":
    os.environ["TZ"] = "America/Sao_Paulo" if ENV == "tz" else PARIS
    time.tzset()
    if ENV:
        from . import envs

        envs.apply()
    from .core import REPO_SRC

    sys.path.insert(0, REPO_SRC)

from datetime import datetime, timedelta, timezone  # noqa: E402
from zoneinfo import ZoneInfo  # noqa: E402

from whenever import *  # noqa: E402,F403
from whenever import patch_current_time  # noqa: E402

from .checks import c21  # noqa: E402
from .vals import lit, view  # noqa: E402

EXTRA = {
    "Instant": [Instant.from_utc(2023, 10, 29, 1, 30, nanosecond=5), Instant.from_utc(2019, 12, 31, 23)],
    "OffsetDateTime": [OffsetDateTime(2023, 10, 29, 2, 30, nanosecond=5, offset=1), OffsetDateTime(2023, 10, 29, 0, 30, nanosecond=5, offset=0), OffsetDateTime(2020, 1, 2, offset=2), OffsetDateTime(2020, 1, 1, 18, offset=-5)],
    "ZonedDateTime": [ZonedDateTime(2023, 10, 29, 2, 30, nanosecond=5, tz=PARIS, disambiguate="later"), ZonedDateTime(2023, 10, 29, 2, 30, nanosecond=5, tz="Europe/Amsterdam"),
                      ZonedDateTime(2023, 10, 29, 0, 30, nanosecond=5, tz="UTC"), ZonedDateTime(2020, 1, 2, tz="Europe/Berlin"),
                      # the same moment on another date, in another year; the same date and offset in a day of another length
                      ZonedDateTime(2020, 1, 1, 18, tz="America/New_York"), ZonedDateTime(2020, 1, 1, tz=PARIS), ZonedDateTime(2019, 12, 31, 18, tz="America/New_York"), ZonedDateTime(2023, 3, 26, 1, 30, tz="Africa/Lagos")],
    "SystemDateTime": [SystemDateTime(2023, 10, 29, 2, 30, nanosecond=5, disambiguate="later"), SystemDateTime(2020, 1, 2, nanosecond=1)],
    "LocalDateTime": [LocalDateTime(2023, 10, 29, 2, 30, nanosecond=5), LocalDateTime(2020, 1, 2, nanosecond=1)],
    "Date": [Date(2020, 2, 28)],
    "DateTimeDelta": [DateTimeDelta(days=3), DateTimeDelta(hours=3)],
    "DateDelta": [DateDelta(days=9), DateDelta(months=1)],
    "int": [1],
    "str": ["Asia/Tokyo", "America/New_York", "2020-01-02", "2020-02", "--02-29", "02:30", "02:30:00.5", "2020-01-02T00:00:00Z", "2023-10-29T00:30:00.000000005Z", "2023-10-29T02:30:00.000000005", "2023-10-29T02:30:00.000000005+02:00", "2023-10-29T02:30:00.000000005+01:00",
            f"2023-10-29T02:30:00.000000005+02:00[{PARIS}]", f"2023-10-29T02:30:00.000000005+01:00[{PARIS}]", "2023-10-29T02:30:00.000000005+02:00[Europe/Amsterdam]", "Thu, 02 Jan 2020 00:00:00 +0000", "Thu, 02 Jan 2020 00:00:00 -0100",
            "P3D", "PT3H", "-P3DT3H", "P3DT3H", "PT3.000000001S", "P1M3D"],
    "datetime.datetime": [datetime(2023, 10, 29, 2, 30, tzinfo=ZoneInfo(PARIS)), datetime(2023, 10, 29, 2, 30, tzinfo=ZoneInfo(PARIS), fold=1), datetime(2023, 10, 29, 2, 30, tzinfo=ZoneInfo("Europe/Amsterdam")),
                          datetime(2023, 10, 29, 0, 30, tzinfo=timezone.utc), datetime(2023, 10, 29, 2, 30, fold=1), datetime(2023, 10, 29, 2, 30), datetime(2023, 10, 29, 2, 30, tzinfo=timezone(timedelta(hours=2)))],
}
POOL = {s: [*v, *EXTRA.get(s, ())] for s, v in c21.POOL.items()}


KEEP = {*c21.LIB, "int", "float"}


def instances():
    out = []
    progs = []
    for kind in ("op", "kw", "pos"):
        progs += [p[:2] for p in c21.programs(kind, "quick")]
    for t in c21.LIB:
        progs += [(f.format(c21.VAR[t]), (t,)) for f in ("pickle.loads(pickle.dumps({}))", "copy.deepcopy({})", "pickle.dumps({})", "{0} == copy.copy({0})", "[*map(hash, ({}, ))] and None")]
    for src, sorts in dict.fromkeys(progs):
        if "now(" in src or "today_in" in src or src.startswith("hash(") or "strptime" in src and "(v_" in src:
            continue
        if sorts and not all(s in KEEP for s in sorts) and " " in src.split("(")[0]:
            continue  # operators with foreign operands (decided by C21)
        if re.match(r"[a-z]+\(v_", src):
            continue  # hours('a') would build an enormous string
        if re.search(r" (@|&|\||\^|<<|>>|\*\*) ", src):
            continue
        vs = []
        for s in sorts:
            v = c21.VAR[s]
            vs.append(v + "_2" if v in vs else v)
        out.append((src, vs, sorts))
    return out


def functions():
    import copy

    c21.NS.update(pickle=pickle, copy=copy)
    for src, vs, sorts in instances():
        yield src, eval(f"lambda {', '.join(vs)}: {src}", c21.NS), sorts


def compiled():
    for src, f, sorts in functions():
        for vals in itertools.product(*(POOL[s] for s in sorts)):
            yield src, f, vals


def chosen(part, parts, step, atleast=12):
    """(is it a program's first of a kind, program, function, operands): the programs of one part; of each, the
    first combination of operands for every type of outcome, and every step-th (but `atleast` if there are as many)"""
    for src, f, sorts in functions():
        if zlib.crc32(src.encode("utf8", "surrogatepass")) % parts != part:
            continue
        combos = [*itertools.product(*(POOL[s] for s in sorts))]
        stride = max(1, min(step, len(combos) // atleast))
        seen = set()
        for k, vals in enumerate(combos, part):
            kind = text(f, vals).split(" ", 1)[0]
            first = kind not in seen
            seen.add(kind)
            if first or k % stride == 0:
                yield first, src, f, vals


def after(f, first, then):
    """what the function gives, right after it has been called with other operands"""
    text(f, first)
    return text(f, then)


def text(f, vals):
    try:
        r = f(*vals)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    v = view(r)
    return f"{type(r).__name__} {r!r} {v if v is not r else ''}"


def snap(v):
    return view(v), repr(v)


def order(n, k):
    """the k-th order of n programs"""
    if k == 0:
        return range(n)
    if k == 1:
        return range(n - 1, -1, -1)
    p = [7919, 104729, 1299709, 15485863, 611953, 350377][k % 6] + k // 6
    while n % p == 0 or _gcd(n, p) != 1:
        p += 1
    return [(i * p + k) % n for i in range(n)]


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


SYSTEM = re.compile("[sS]ystem")


def local(src, sorts):
    """does the program involve the system timezone?"""
    return "SystemDateTime" in sorts or SYSTEM.search(src) is not None


def loose(src, vals, t):
    """what the library answers for, whichever implementation of the standard library it runs on: None if nothing"""
    if "py_datetime" in src or "None" in src or any(v is None for v in vals):
        return None
    return "ValueError" if t == "OverflowError" else t


def sweep(k, out, show=None):
    import contextlib
    import gc
    import zoneinfo

    progs = list(compiled())
    snaps = {id(v): (v, snap(v)) for vs in POOL.values() for v in vs}
    res, res2 = [0] * len(progs), [0] * len(progs)
    problems = []
    crc = lambda t: zlib.crc32(t.encode("utf8", "surrogatepass"))  # noqa: E731
    if ENV == "gc":
        gc.set_threshold(1, 1, 1)
    with patch_current_time(Instant.from_utc(1899, 3, 4, 5), keep_ticking=False) if ENV == "patched" else contextlib.nullcontext():
        for c, i in enumerate(order(len(progs), k)):
            if ENV == "gc" and c % 8:
                continue
            src, f, vals = progs[i]
            if c % 5000 == 4999 and k % 2:
                zoneinfo.ZoneInfo.clear_cache()
            t = text(f, vals)
            if show == i:
                print(t, flush=True)
            if c % 7 == k % 7 and text(f, vals) != t:
                problems.append((i, "a second evaluation gives something else", t, text(f, vals)))
            for v in vals:
                old = snaps[id(v)][1]
                if snap(v) != old:
                    problems.append((i, "an operand changed", repr(old), repr(snap(v))))
                    snaps[id(v)] = (v, snap(v))
            res[i] = crc(t)
            t2 = loose(src, vals, t)
            res2[i] = crc(t2) if t2 is not None else 0
            if len(problems) > 5:
                break
    gc.set_threshold(700, 10, 10)
    with open(out, "wb") as fh:
        pickle.dump((res, [(i, w, a, b, progs[i][0], lit(progs[i][2])) for i, w, a, b in problems], res2), fh)


def main():
    args = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else None
    if ENV == "thread":
        import threading

        t = threading.Thread(target=sweep, args=args)
        t.start()
        t.join()
    elif ENV == "fork":
        for src, f, vals in itertools.islice(compiled(), 0, None, 200):
            text(f, vals)
        pid = os.fork()
        if not pid:
            sweep(*args)
            sys.stdout.flush()
            os._exit(0)
        sys.exit(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) and 1)
    elif ENV == "sub":
        import _xxsubinterpreters as subs

        for src, f, vals in itertools.islice(compiled(), 0, None, 200):
            text(f, vals)
        i = subs.create(isolated=False)
        subs.run_string(i, f"import sys; sys.path[:0] = {[REPO_SRC, os.getcwd()]!r}; sys.argv = {sys.argv!r}; import mc.hist; mc.hist.sweep(*{args!r})")
        subs.destroy(i)
    else:
        sweep(*args)


if __name__ == "__main__":
    main()
