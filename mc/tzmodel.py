"""Reference model of time zones: own TZif reader, own POSIX TZ evaluation,
definitional local-time resolution. Does not use zoneinfo or datetime.

Times are integer seconds since 0001-01-01T00:00 ("s1"), both for UTC and
local time, so that local - offset = utc.
"""
from __future__ import annotations

import os
import re
import struct

from . import cal
from .cal import EPOCH_S, DAY_S

ZONEINFO = "/usr/share/zoneinfo"
LO_S, HI_S = 0, cal.NDAYS * DAY_S - 1


class Skipped(Exception):
    pass


class Repeated(Exception):
    pass


def _posix_name(s, i):
    if s[i] == "<":
        j = s.index(">", i)
        return j + 1
    j = i
    while j < len(s) and s[j].isalpha():
        j += 1
    return j


_OFF = re.compile(r"([+-]?)(\d{1,3})(?::(\d{2})(?::(\d{2}))?)?")


def _posix_off(s, i):
    m = _OFF.match(s, i)
    sign = -1 if m[1] == "-" else 1
    return sign * (int(m[2]) * 3600 + int(m[3] or 0) * 60 + int(m[4] or 0)), m.end()


class Rule:
    """POSIX TZ string"""

    def __init__(self, s: str):
        self.text = s
        i = _posix_name(s, 0)
        off, i = _posix_off(s, i)
        self.std = -off
        self.dst = None
        if i >= len(s):
            return
        i = _posix_name(s, i)
        self.dst = self.std + 3600
        if i < len(s) and s[i] != ",":
            off, i = _posix_off(s, i)
            self.dst = -off
        assert s[i] == ","
        a, b = s[i + 1 :].split(",")
        self.start, self.end = self._date(a), self._date(b)
        self._cache = {}

    @staticmethod
    def _date(t):
        d, _, tm = t.partition("/")
        secs = _posix_off(tm, 0)[0] if tm else 7200
        if d[0] == "M":
            m, w, wd = map(int, d[1:].split("."))
            return ("M", m, w, wd, secs)
        if d[0] == "J":
            return ("J", int(d[1:]), secs)
        return ("N", int(d), secs)

    @staticmethod
    def _when(r, y):
        """local (pre-transition clock) second of the rule in year y"""
        if r[0] == "M":
            _, m, w, wd, secs = r
            first = cal.days(y, m, 1)
            # ISO weekday%7: Sunday = 0
            d = first + (wd - cal.weekday(first) % 7) % 7 + 7 * (w - 1)
            if d - first >= cal.dim(y, m):
                d -= 7
        elif r[0] == "J":
            _, n, secs = r
            d = cal.days(y, 1, 1) + n - 1
            if cal.leap(y) and n >= 60:
                d += 1
        else:
            _, n, secs = r
            d = cal.days(y, 1, 1) + n
        return d * DAY_S + secs

    def transitions(self, y):
        """[(utc, offset_after)] of year y, ordered"""
        if self.dst is None or not 1 <= y <= 9999:
            return []
        if y not in self._cache:
            a = (self._when(self.start, y) - self.std, self.dst)
            b = (self._when(self.end, y) - self.dst, self.std)
            self._cache[y] = sorted([a, b])
        return self._cache[y]


class Zone:
    def __init__(self, key: str, path: str):
        self.key = key
        data = open(path, "rb").read()
        assert data[:4] == b"TZif"
        ver = data[4:5]
        hdr = struct.unpack(">6L", data[20:44])
        if ver >= b"2":
            isut, isstd, leapcnt, timecnt, typecnt, charcnt = hdr
            pos = 44 + timecnt * 5 + typecnt * 6 + charcnt + leapcnt * 8 + isstd + isut
            hdr = struct.unpack(">6L", data[pos + 20 : pos + 44])
            pos += 44
            size = 8
        else:
            pos, size = 44, 4
        isut, isstd, leapcnt, timecnt, typecnt, charcnt = hdr
        fmt = ">%d%s" % (timecnt, "q" if size == 8 else "l")
        times = struct.unpack(fmt, data[pos : pos + timecnt * size])
        pos += timecnt * size
        idx = data[pos : pos + timecnt]
        pos += timecnt
        types = []
        for k in range(typecnt):
            off, dst, ab = struct.unpack(">lBB", data[pos : pos + 6])
            types.append((off, dst))
            pos += 6
        pos += charcnt + leapcnt * (size + 4) + isstd + isut
        footer = ""
        if ver >= b"2":
            footer = data[pos:].split(b"\n")[1].decode()
        self._init(
            types[0][0],
            [(t + EPOCH_S, types[i][0]) for t, i in zip(times, idx)],
            footer,
        )

    def _init(self, first_off, trans, footer):
        self.first_off = first_off
        # drop entries that don't change the offset and those before year 1
        self.trans = []
        cur = first_off
        for t, o in trans:
            if t < LO_S:
                self.first_off = cur = o
                continue
            if o != cur:
                self.trans.append((t, cur, o))
                cur = o
        self.last_tabled = trans[-1][0] if trans else -(10**18)
        self.final_off = cur
        self.rule = Rule(footer) if footer else None
        self.fixed_after = None
        self._times = [t for t, _, _ in self.trans]

    @classmethod
    def make(cls, key, first_off, trans, footer=""):
        z = cls.__new__(cls)
        z.key = key
        z._init(first_off, trans, footer)
        return z

    # ---- instants
    def offset(self, u: int) -> int:
        if self.rule is not None and u >= self.last_tabled:
            r = self.rule
            if r.dst is None:
                return r.std
            # latest rule transition <= u and > table, else the offset of the table
            y = cal.civil(min(max(u // DAY_S, 0), cal.NDAYS - 1))[0]
            best = None
            for yy in (y - 1, y, y + 1):
                for t, o in r.transitions(yy):
                    if t <= u:
                        best = (t, o)
            if best is not None:
                return best[1]
            return r.std
        return self._tab_offset(u)

    def _tab_offset(self, u):
        import bisect

        i = bisect.bisect_right(self._times, u)
        return self.trans[i - 1][2] if i else self.first_off

    def transitions_between(self, lo: int, hi: int):
        """[(utc, before, after)] with lo <= utc <= hi"""
        out = [x for x in self._table_slice(lo, hi)]
        if self.rule is not None and self.rule.dst is not None and hi >= self.last_tabled:
            y0 = cal.civil(min(max(max(lo, self.last_tabled) // DAY_S, 0), cal.NDAYS - 1))[0]
            y1 = cal.civil(min(max(hi // DAY_S, 0), cal.NDAYS - 1))[0]
            for y in range(max(1, y0 - 1), min(9999, y1 + 1) + 1):
                for t, o in self.rule.transitions(y):
                    if lo <= t <= hi and t > self.last_tabled:
                        b = self.offset(t - 1)
                        if b != o:
                            out.append((t, b, o))
        return out

    def _table_slice(self, lo, hi):
        import bisect

        i = bisect.bisect_left(self._times, lo)
        j = bisect.bisect_right(self._times, hi)
        return self.trans[i:j]

    # ---- local times
    def window(self, local: int):
        return self.transitions_between(local - 2 * DAY_S, local + 2 * DAY_S)

    def solve(self, local: int):
        """('ok', [utc...]) with 1 or 2 solutions or ('gap', (T, before, after))"""
        lo = local - 2 * DAY_S
        tr = self.transitions_between(lo, local + 2 * DAY_S)
        offs = {self.offset(lo)} | {o for _, b, a in tr for o in (b, a)}
        sol = sorted({local - o for o in offs if self.offset(local - o) == o})
        if sol:
            return "ok", sol
        for t, b, a in tr:
            if t + b <= local < t + a:
                return "gap", (t, b, a)
        raise AssertionError((self.key, local))

    def resolve(self, local: int, mode: str) -> int:
        """utc of a local time under a disambiguation mode"""
        kind, v = self.solve(local)
        if kind == "ok":
            if len(v) == 1:
                return v[0]
            if mode == "raise":
                raise Repeated
            return v[0] if mode in ("compatible", "earlier") else v[-1]
        if mode == "raise":
            raise Skipped
        t, b, a = v
        return local - b if mode in ("compatible", "later") else local - a

    def resolve_keep(self, local: int, prev: int) -> int:
        """keep the offset if possible, else 'compatible'"""
        kind, v = self.solve(local)
        if kind == "ok":
            for u in v:
                if local - u == prev:
                    return u
            return v[0]
        t, b, a = v
        # resulting offset is `after` when interpreted with `before`, and vice versa
        return local - a if prev == b else local - b

    def simple(self, t: int, b: int, a: int) -> bool:
        """transition is well separated from its neighbours"""
        w = abs(a - b) + DAY_S
        return len(self.transitions_between(t - w, t + w)) == 1


def all_zones(roots=None):
    """every zone zoneinfo can find, deduplicated by content: [(key, path, aliases)]

    Like zoneinfo: the system's database first, the tzdata package for what it lacks.
    """
    if roots is None:
        roots = [ZONEINFO]
        try:
            import tzdata

            roots.append(os.path.join(os.path.dirname(tzdata.__file__), "zoneinfo"))
        except ImportError:
            pass
    seen = {}
    keys = set()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            if os.path.basename(d) in ("posix", "right", "__pycache__"):
                dirs[:] = []
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    data = fh.read()
                key = os.path.relpath(p, root)
                if data[:4] != b"TZif" or key in keys or key in ("posixrules", "localtime", "Factory"):
                    continue
                keys.add(key)
                seen.setdefault(data, []).append((key, p))
    out = []
    for data, ks in seen.items():
        ks.sort(key=lambda k: ("/" not in k[0], k[0]))
        out.append((ks[0][0], ks[0][1], [k for k, _ in ks[1:]]))
    return sorted(out)


# ---- synthetic zones -------------------------------------------------
def tzif(types, trans, footer=""):
    """types: [offset]; trans: [(unix_time, type_index)] -> TZif v2 bytes"""

    def block(size, tr):
        b = struct.pack(
            ">4sc15x6L", b"TZif", b"2", 0, 0, 0, len(tr), len(types), 4 * len(types)
        )
        b += struct.pack(">%d%s" % (len(tr), "q" if size == 8 else "l"), *[t for t, _ in tr])
        b += bytes(i for _, i in tr)
        for k, o in enumerate(types):
            b += struct.pack(">lBB", o, 0, 4 * k)
        b += b"".join(b"T%02d\0" % (k % 100) for k in range(len(types)))
        return b

    small = [(t, i) for t, i in trans if -(2**31) <= t < 2**31]
    return block(4, small) + block(8, trans) + b"\n" + footer.encode() + b"\n"
