"""Observation of `whenever` values through their public interface only, and
operations written as source text so that every mismatch can be replayed."""
from __future__ import annotations

import whenever as w
from whenever import (
    Date,
    DateDelta,
    DateTimeDelta,
    Instant,
    LocalDateTime,
    MonthDay,
    OffsetDateTime,
    SystemDateTime,
    Time,
    TimeDelta,
    YearMonth,
    ZonedDateTime,
)

from . import cal
from .cal import DAY_NS, EPOCH_NS, HOUR_NS, MIN_NS, NS

MIN_NS_ = cal.MIN_NS


# ---- observation -----------------------------------------------------
def _loc(x):
    return (
        cal.MONTH_START[x.year * 12 + x.month - 13] + x.day - 1
    ) * DAY_NS + (x.hour * 3600 + x.minute * 60 + x.second) * NS + x.nanosecond


def v_instant(x):
    return ("I", x.timestamp_nanos() + EPOCH_NS)


def v_offset(x):
    # (local, offset, utc): redundant on purpose
    return ("O", _loc(x), x.offset.in_nanoseconds(), x.timestamp_nanos() + EPOCH_NS)


def v_zoned(x):
    return (
        "Z",
        x.tz,
        _loc(x),
        x.offset.in_nanoseconds(),
        x.timestamp_nanos() + EPOCH_NS,
    )


def v_system(x):
    return ("S", _loc(x), x.offset.in_nanoseconds(), x.timestamp_nanos() + EPOCH_NS)


def v_local(x):
    return ("L", _loc(x))


def v_date(x):
    return ("D", x.year, x.month, x.day)


def v_time(x):
    return ("T", ((x.hour * 60 + x.minute) * 60 + x.second) * NS + x.nanosecond)


def v_tdelta(x):
    return ("TD", x.in_nanoseconds())


def v_ddelta(x):
    return ("DD", *x.in_months_days())


def v_dtdelta(x):
    mo, d, s, ns = x.in_months_days_secs_nanos()
    return ("DTD", mo, d, s * NS + ns)


def v_ym(x):
    return ("YM", x.year, x.month)


def v_md(x):
    return ("MD", x.month, x.day)


_VIEW = {
    Instant: v_instant,
    OffsetDateTime: v_offset,
    ZonedDateTime: v_zoned,
    SystemDateTime: v_system,
    LocalDateTime: v_local,
    Date: v_date,
    Time: v_time,
    TimeDelta: v_tdelta,
    DateDelta: v_ddelta,
    DateTimeDelta: v_dtdelta,
    YearMonth: v_ym,
    MonthDay: v_md,
}


def view(x):
    f = _VIEW.get(type(x))
    if f is not None:
        return f(x)
    if type(x) is tuple:
        return tuple(map(view, x))
    return x


# ---- expected views, from model integers -----------------------------
def eI(utc):
    return ("I", utc)


def eO(utc, off_s):
    return ("O", utc + off_s * NS, off_s * NS, utc)


def eZ(key, utc, off_s):
    return ("Z", key, utc + off_s * NS, off_s * NS, utc)


def eS(utc, off_s):
    return ("S", utc + off_s * NS, off_s * NS, utc)


def eL(local):
    return ("L", local)


# ---- construction from model integers --------------------------------
def mkI(utc):
    y, mo, d, h, mi, s, ns = cal.fields(utc)
    return Instant.from_utc(y, mo, d, h, mi, s, nanosecond=ns)


def mkL(local):
    y, mo, d, h, mi, s, ns = cal.fields(local)
    return LocalDateTime(y, mo, d, h, mi, s, nanosecond=ns)


def mkO(utc, off_s):
    y, mo, d, h, mi, s, ns = cal.fields(utc + off_s * NS)
    return OffsetDateTime(
        y, mo, d, h, mi, s, nanosecond=ns, offset=TimeDelta(seconds=off_s)
    )


def mkZ(key, utc):
    return mkI(utc).to_tz(key)


def mkS(utc):
    return mkI(utc).to_system_tz()


def mkT(tod):
    s, ns = divmod(tod, NS)
    return Time(s // 3600, s // 60 % 60, s % 60, nanosecond=ns)


def mkTD(ns):
    return TimeDelta(nanoseconds=ns)


def mkDD(mo, d):
    return DateDelta(months=mo, days=d)


def mkDTD(mo, d, ns):
    return DateTimeDelta(months=mo, days=d, nanoseconds=ns)


# ---- literals for replay scripts -------------------------------------
def lit(v) -> str:
    t = type(v)
    try:
        if t is TimeDelta:
            return f"TimeDelta(nanoseconds={v.in_nanoseconds()})"
        if t is DateDelta:
            mo, d = v.in_months_days()
            return f"DateDelta(months={mo}, days={d})"
        if t is DateTimeDelta:
            _, mo, d, ns = v_dtdelta(v)
            return f"DateTimeDelta(months={mo}, days={d}, nanoseconds={ns})"
        if t is Instant:
            return f"Instant.from_timestamp_nanos({v.timestamp_nanos()})"
        if t is ZonedDateTime:
            return f"Instant.from_timestamp_nanos({v.timestamp_nanos()}).to_tz({v.tz!r})"
        if t is LocalDateTime:
            return (
                f"LocalDateTime({v.year}, {v.month}, {v.day}, {v.hour}, {v.minute}, "
                f"{v.second}, nanosecond={v.nanosecond})"
            )
        if t in (OffsetDateTime, SystemDateTime):
            return f"{t.__name__}.parse_common_iso({str(v)!r})"
        if t is Date:
            return f"Date({v.year}, {v.month}, {v.day})"
        if t is Time:
            return f"Time({v.hour}, {v.minute}, {v.second}, nanosecond={v.nanosecond})"
        if t in (YearMonth, MonthDay):
            return f"{t.__name__}.parse_common_iso({str(v)!r})"
        if t in (tuple, list):
            return "(" + "".join(lit(x) + ", " for x in v) + ")"
        if t is dict:
            return "{" + ", ".join(f"{k!r}: {lit(x)}" for k, x in v.items()) + "}"
        if isinstance(v, type) and v.__module__ == "whenever":
            return v.__name__
    except Exception as e:  # noqa: BLE001
        return f"<unprintable {t.__name__}: {type(e).__name__}>"
    return repr(v)


class Op:
    """An operation given as source text over named operands"""

    __slots__ = ("src", "names", "f", "hits")

    def __init__(self, src: str, names: str, **env):
        self.src = src
        self.names = names.split()
        ns = dict(vars(w))
        import datetime, pickle, copy, zoneinfo, time as _t, operator  # noqa

        ns.update(
            datetime=datetime,
            pickle=pickle,
            copy=copy,
            zoneinfo=zoneinfo,
            operator=operator,
            time=_t,
            whenever=w,
        )
        ns.update(env)
        self.f = eval(f"lambda {', '.join(self.names)}: {src}", ns)
        self.hits = 0

    def __call__(self, *a):
        return self.f(*a)


class Err:
    """Expected failure: any of the given exception types"""

    def __init__(self, *types):
        self.types = types
        self.text = "|".join(t.__name__ for t in types)

    def __repr__(self):
        return self.text


class OrErr:
    """Expected: this view, or else one of these exceptions"""

    def __init__(self, value, *types):
        self.value = value
        self.types = types

    def __repr__(self):
        return f"{self.value!r}|" + "|".join(t.__name__ for t in self.types)


RANGE = Err(ValueError, OverflowError)
VALUE = Err(ValueError)
TYPE = Err(TypeError)
SKIPPED = Err(w.SkippedTime)
REPEATED = Err(w.RepeatedTime)
NODST = Err(w.ImplicitlyIgnoringDST)
INVALID_OFFSET = Err(w.InvalidOffset)

PRE_SETUP = ""  # before whenever is imported
EXTRA_SETUP = ""  # e.g. TZ setting, set by checks


def report(ctx, op, expected, got, vals, why="", setup=""):
    lines = [PRE_SETUP] * bool(PRE_SETUP) + [
        "import datetime, pickle, copy, zoneinfo, time, operator, os",
        "from whenever import *",
        "from whenever import SkippedTime, RepeatedTime, InvalidOffset",
        "from mc.vals import view",
    ]
    if EXTRA_SETUP:
        lines.append(EXTRA_SETUP)
    if setup:
        lines.append(setup)
    for n, v in zip(op.names, vals):
        lines.append(f"{n} = {lit(v)}")
    key = op.src + " @ " + ", ".join(
        f"{n}={lit(v)}" for n, v in zip(op.names, vals)
    ) + (f" [{EXTRA_SETUP}{setup}]" if EXTRA_SETUP or setup else "")
    ctx.fail(
        f"view({op.src})",
        repr(expected),
        got,
        setup="\n".join(lines),
        key=key,
        why=why,
    )


def chk(ctx, op, expected, *vals, why="", setup=""):
    """op(*vals) must be observed as `expected` (a view, or Err)"""
    ctx.transitions += 1
    ctx.traces += 1
    try:
        got = view(op.f(*vals))
    except Exception as e:  # noqa: BLE001
        if type(expected) is Err and isinstance(e, expected.types):
            ctx.outcomes["err:" + expected.text] += 1
            return
        if type(expected) is OrErr and isinstance(e, expected.types):
            ctx.outcomes["refused, as permitted"] += 1
            return
        report(ctx, op, expected, type(e).__name__, vals, why or repr(e)[:200], setup)
        return
    if got != (expected.value if type(expected) is OrErr else expected):
        report(ctx, op, expected, repr(got), vals, why, setup)


def chk_text(ctx, op, expected, *vals, why="", setup=""):
    chk(ctx, op, expected, *vals, why=why, setup=setup)
