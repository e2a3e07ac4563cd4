"""Reference model of calendar, clock and durations: plain integers only.

Nothing here imports the code under test or the datetime module.
"""
from __future__ import annotations

NS = 1_000_000_000
US = 1_000
MS = 1_000_000
MIN_NS = 60 * NS
HOUR_NS = 3600 * NS
DAY_NS = 86400 * NS
DAY_S = 86400

MIN_YEAR, MAX_YEAR = 1, 9999
MDAYS = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


class OutOfRange(Exception):
    pass


def leap(y: int) -> bool:
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y: int, m: int) -> int:
    return 29 if m == 2 and leap(y) else MDAYS[m]


def _build():
    # cumulative table, built by counting; day 0 = 0001-01-01
    ymonth = []
    n = 0
    for y in range(MIN_YEAR, MAX_YEAR + 1):
        for m in range(1, 13):
            ymonth.append(n)
            n += dim(y, m)
    return ymonth, n


MONTH_START, NDAYS = _build()  # index: (y-1)*12 + (m-1)
EPOCH = MONTH_START[(1970 - 1) * 12]  # day number of 1970-01-01


def days(y: int, m: int, d: int) -> int:
    """Day number, 0001-01-01 is 0"""
    return MONTH_START[(y - 1) * 12 + m - 1] + d - 1


def civil(n: int) -> tuple[int, int, int]:
    if not 0 <= n < NDAYS:
        raise OutOfRange(n)
    # guess then correct
    i = min(n * 12 * 400 // 146097, len(MONTH_START) - 1)
    while MONTH_START[i] > n:
        i -= 1
    while i + 1 < len(MONTH_START) and MONTH_START[i + 1] <= n:
        i += 1
    return i // 12 + 1, i % 12 + 1, n - MONTH_START[i] + 1


def weekday(n: int) -> int:
    """ISO weekday 1..7; 0001-01-01 was a Monday (proleptic Gregorian)"""
    return n % 7 + 1


def add_months(y: int, m: int, d: int, mo: int) -> tuple[int, int, int]:
    t = y * 12 + (m - 1) + mo
    y2, m2 = t // 12, t % 12 + 1
    if not MIN_YEAR <= y2 <= MAX_YEAR:
        raise OutOfRange((y2, m2))
    return y2, m2, min(d, dim(y2, m2))


def shift_date(y, m, d, mo, dd):
    """months first (clamping the day), then days"""
    return civil(days(*add_months(y, m, d, mo)) + dd)


def date_str(y, m, d) -> str:
    return f"{y:04d}-{m:02d}-{d:02d}"


def frac_str(ns: int) -> str:
    return ("." + f"{ns:09d}".rstrip("0")) if ns else ""


def tod_str(tod: int) -> str:
    """time of day in ns -> HH:MM:SS[.fff]"""
    s, ns = divmod(tod, NS)
    return f"{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}" + frac_str(ns)


def off_str(secs: int) -> str:
    sign = "-" if secs < 0 else "+"
    a = abs(secs)
    r = f"{sign}{a // 3600:02d}:{a // 60 % 60:02d}"
    if a % 60:
        r += f":{a % 60:02d}"
    return r


def local_str(local_ns: int, sep: str = "T") -> str:
    """local_ns: ns since 0001-01-01T00:00"""
    n, tod = divmod(local_ns, DAY_NS)
    return date_str(*civil(n)) + sep + tod_str(tod)


LOCAL_MIN = 0
LOCAL_MAX = NDAYS * DAY_NS - 1
EPOCH_NS = EPOCH * DAY_NS  # ns between 0001-01-01 and the UNIX epoch
EPOCH_S = EPOCH * DAY_S


def in_range(ns: int) -> bool:
    return LOCAL_MIN <= ns <= LOCAL_MAX


def local_ns(y, mo, d, h=0, mi=0, s=0, ns=0) -> int:
    return days(y, mo, d) * DAY_NS + ((h * 60 + mi) * 60 + s) * NS + ns


def fields(local: int):
    n, tod = divmod(local, DAY_NS)
    y, m, d = civil(n)
    s, ns = divmod(tod, NS)
    return y, m, d, s // 3600, s // 60 % 60, s % 60, ns


# ---- durations -------------------------------------------------------
MAX_MONTHS = 9999 * 12
MAX_DAYS = 9999 * 366
MAX_TDELTA = MAX_DAYS * DAY_NS


def tdelta_iso(ns: int) -> str:
    sign = "-" if ns < 0 else ""
    a = abs(ns)
    h, r = divmod(a, HOUR_NS)
    m, r = divmod(r, MIN_NS)
    s, f = divmod(r, NS)
    out = ""
    if h:
        out += f"{h}H"
    if m:
        out += f"{m}M"
    if s or f:
        out += f"{s}{frac_str(f)}S"
    return f"{sign}PT{out or '0S'}"


def ddelta_iso(mo: int, d: int) -> str:
    sign = "-" if mo < 0 or d < 0 else ""
    mo, d = abs(mo), abs(d)
    y, mo = divmod(mo, 12)
    out = (f"{y}Y" if y else "") + (f"{mo}M" if mo else "") + (f"{d}D" if d else "")
    return f"{sign}P{out or '0D'}"


def dtdelta_iso(mo: int, d: int, ns: int) -> str:
    sign = "-" if mo < 0 or d < 0 or ns < 0 else ""
    date = ddelta_iso(abs(mo), abs(d))[1:] if mo or d else ""
    time = tdelta_iso(abs(ns))[1:] if ns else ""
    return f"{sign}P{(date + time) or '0D'}"


def trunc_div(a: int, b: int) -> int:
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# ---- rounding --------------------------------------------------------
MODES = ("ceil", "floor", "half_ceil", "half_floor", "half_even")


def round_int(x: int, inc: int, mode: str) -> int:
    """Nearest multiple of inc, by definition"""
    lo = x - x % inc
    if lo == x:
        return x
    hi = lo + inc
    if mode == "floor":
        return lo
    if mode == "ceil":
        return hi
    a, b = x - lo, hi - x
    if a < b:
        return lo
    if b < a:
        return hi
    if mode == "half_floor":
        return lo
    if mode == "half_ceil":
        return hi
    return lo if (lo // inc) % 2 == 0 else hi


UNIT_NS = {
    "hour": HOUR_NS,
    "minute": MIN_NS,
    "second": NS,
    "millisecond": MS,
    "microsecond": US,
    "nanosecond": 1,
}
UNIT_DIV = {
    "hour": 24,
    "minute": 60,
    "second": 60,
    "millisecond": 1000,
    "microsecond": 1000,
    "nanosecond": 1000,
}
INCREMENTS = {
    u: [i for i in range(1, d + 1) if d % i == 0] for u, d in UNIT_DIV.items()
}
