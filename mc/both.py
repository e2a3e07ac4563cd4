"""What the programs of a job give in one implementation, in a form that can be
compared with what they give in the other.

usage: python -m mc.both < JOB > OUTCOMES     (VERIF_REPO_SRC: the implementation)
"""
from __future__ import annotations

import copy
import datetime
import hashlib
import itertools
import os
import pickle
import re
import sys
import time

PARIS = "Europe/Paris"
if __name__ == "__main__":
    os.environ["TZ"] = PARIS
    time.tzset()
    from .core import REPO_SRC

    sys.path.insert(0, REPO_SRC)

from . import cal, hist  # noqa: E402
from whenever import *  # noqa: E402,F403

from .checks import c21  # noqa: E402
from .vals import lit, mkDD, mkDTD, mkI, mkL, mkO, mkS, mkT, mkTD, mkZ, view  # noqa: E402

EXTRA = {
    # values with an offset the system's time zone doesn't have then; beyond its transitions; before its first
    "SystemDateTime": [SystemDateTime.parse_common_iso(s) for s in ("2024-02-29T23:59:59+05:30", "2023-10-29T00:59:59.5+00:00", "1900-01-01T00:00:00+00:09:21", "2500-07-01T12:00:00-08:00")],
    "ZonedDateTime": [Instant.parse_common_iso(s).to_tz(k) for s, k in (
        ("2024-03-10T06:59:59.9Z", "America/New_York"), ("2011-12-30T09:59:59Z", "Pacific/Apia"), ("2024-04-06T15:15:00Z", "Australia/Lord_Howe"), ("1890-06-01T12:00:00Z", "Europe/Amsterdam"), ("2500-03-28T00:59:59.999999999Z", PARIS))],
    "OffsetDateTime": [OffsetDateTime.parse_common_iso("0001-01-01T23:59:59.5+23:59:59"), OffsetDateTime.parse_common_iso("1969-12-31T23:59:59.999999999-00:00:01")],
    "LocalDateTime": [LocalDateTime(2024, 3, 31, 2, 30), LocalDateTime(1940, 6, 14, 23, 30, nanosecond=999_999_999)],
    "Instant": [Instant.from_timestamp_nanos(-1), Instant.from_utc(2024, 3, 31, 0, 59, 59)],
    "Date": [Date(2100, 2, 28), Date(1582, 10, 15)],
    "TimeDelta": [TimeDelta(seconds=-0.5), TimeDelta(hours=23, nanoseconds=1)],
    "DateDelta": [DateDelta(years=-1, months=-11, days=-31)],
    "DateTimeDelta": [DateTimeDelta(months=-1, nanoseconds=-1)],
}
POOL = {s: [*v, *EXTRA.get(s, ())] for s, v in hist.POOL.items()}
IGNORED, REFUSED, SKIPPED, REPEATED = 0, 1, 2, 3
ERRORS = {"TypeError": IGNORED, "AttributeError": IGNORED, "SkippedTime": SKIPPED, "RepeatedTime": REPEATED}
# programs of which the results are only defined up to rounding, or (a shift by nothing) up to the offset
LOOSE = re.compile(r"^v_TimeDelta / v_(int|float)$|^v_TimeDelta \* v_float$|^v_float \* v_TimeDelta$|^v_SystemDateTime\.(add|subtract)\((disambiguate='\w+')?\)$")
UTC = re.compile(r"datetime\.timezone\(datetime\.timedelta\(0\)(, '[^']*')?\)")
NAME = re.compile(r"(datetime\.timezone\(datetime\.timedelta\([^()]*\)), '[^']*'\)")
WHENEVER = {*c21.LIB}


def words(f, vals):
    try:
        r = f(*vals)
    except Exception as e:  # noqa: BLE001
        return ERRORS.get(type(e).__name__, REFUSED), type(e).__name__
    if isinstance(r, datetime.datetime):  # `fold` means something by the offset only
        r = r.replace(fold=0), r.utcoffset()
    v = view(r)
    if type(r) is SystemDateTime and not 2 * cal.DAY_NS < v[3] < cal.LOCAL_MAX - 2 * cal.DAY_NS:
        return IGNORED, "at the very end of the range, where the system's functions may refuse"
    t = f"{type(r).__name__} {r!r} {v if v is not r else ''}"
    return None, NAME.sub(r"\1)", UTC.sub("datetime.timezone.utc", t))


def code(f, vals):
    e, t = words(f, vals)
    return e if e is not None else digest(t)


def digest(t):
    return int.from_bytes(hashlib.blake2b(t.encode("utf8", "surrogatepass"), digest_size=8).digest(), "big") | 1 << 63


FN: dict = {}


def program(p):
    """function and sorts of its operands; p: (source, names of the operands, their sorts)"""
    src, names, sorts = p
    if p not in FN:
        c21.NS.update(pickle=pickle, copy=copy)
        FN[p] = eval(f"lambda {', '.join(names)}: {src}", c21.NS)
    return FN[p], sorts


def text_program(src):
    return src, ("s",), ("str",)


def first(srcs):
    """(program, operands) of these programs"""
    for p in srcs:
        f, sorts = program(p)
        for vals in itertools.product(*(POOL[s] for s in sorts)):
            yield p[0], f, vals


def start(rep):
    """the value a program gives"""
    p, ks = rep
    f, sorts = program(p)
    return f(*(POOL[s][k] for s, k in zip(sorts, ks)))


def second(reps, steps):
    """(None, None, value) for each of the values, followed by (program, f, operands) for each next step from it"""
    todo = []
    for p, k, other in steps:
        f, sorts = program(p)
        todo.append((p[0], f, k, None if other is None else POOL[sorts[1 - k]][other]))
    for rep in reps:
        try:
            x = start(rep)
        except Exception as e:  # noqa: BLE001
            x = type(e).__name__
        yield None, None, x
        for src, f, k, other in todo:
            yield src, f, (x,) if other is None else (x, other) if k == 0 else (other, x)


MAKE = {"I": mkI, "L": mkL, "O": mkO, "Z": mkZ, "S": mkS, "T": mkT, "D": lambda n: Date(*cal.civil(n)), "TD": mkTD, "DD": mkDD, "DTD": mkDTD, "=": lambda x: x}


def made(spec):
    return MAKE[spec[0]](*spec[1:])


def wide(grids):
    """each of the grids: all of its programs with all combinations of its operands (described by model integers)"""
    for operands, progs in grids:
        fs = [(src, eval(f"lambda {names}: {src}", c21.NS)) for src, names in progs]
        for specs in itertools.product(*operands):
            try:
                vals = tuple(map(made, specs))
            except (ValueError, OverflowError, cal.OutOfRange):
                continue
            for src, f in fs:
                yield src, f, vals


def texts(groups):
    for src, ss in groups:
        f, _ = program(text_program(src))
        for s in ss:
            yield src, f, (s,)


def programs():
    return [(src, tuple(names), tuple(sorts)) for src, names, sorts in hist.instances() if not LOOSE.search(src)]


def useful(part, parts):
    """of one part of the programs: (type, next step) for those that give something; and a program for each value"""
    steps, reps = [], {}
    have = {(t, view(v)) for t in WHENEVER for v in POOL[t]}
    for p in programs()[part::parts]:
        f, sorts = program(p)
        good = set()
        for ks in itertools.product(*(range(len(POOL[s])) for s in sorts)):
            try:
                r = f(*(POOL[s][k] for s, k in zip(sorts, ks)))
            except (TypeError, AttributeError):
                continue
            except Exception:  # noqa: BLE001
                good.add(ks)
                continue
            good.add(ks)
            if (t := type(r).__name__) in WHENEVER and (t, view(r)) not in have:
                reps.setdefault((t, view(r)), (p, ks))
        if len(sorts) == 1 and good and sorts[0] in WHENEVER:
            steps.append((sorts[0], (p, 0, None)))
        elif len(sorts) == 2:
            for k in (0, 1):
                if sorts[k] in WHENEVER:
                    steps += [(sorts[k], (p, k, o)) for o in sorted({ks[1 - k] for ks in good})[:2]]
    return steps, reps


def run(job):
    return {"first": first, "second": second, "texts": texts, "wide": wide}[job[0]](*job[1:])


def outcomes(job):
    return [digest(repr((type(v).__name__, view(v)))) if f is None else code(f, v) for _, f, v in run(job)]


def detail(job, n):
    """what the n-th program of a job is and gives"""
    for i, (src, f, v) in enumerate(run(job)):
        if i == n:
            return ("", repr(v)) if f is None else (f"{src} with {', '.join(map(lit, v))}", words(f, v)[1])


if __name__ == "__main__":
    job, n = pickle.load(sys.stdin.buffer)
    pickle.dump(useful(*job[1:]) if job[0] == "useful" else outcomes(job) if n is None else detail(job, n), sys.stdout.buffer)
