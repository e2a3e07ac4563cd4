from __future__ import annotations

import os
import time

from whenever import Date, DateDelta, DateTimeDelta

from .. import cal, pool, synth, vals
from ..cal import DAY_NS, HOUR_NS, NS
from ..tzmodel import Repeated, Skipped
from ..vals import RANGE, REPEATED, SKIPPED, TYPE, Op, chk, eS, eZ, lit, mkDD, mkDTD, mkI, mkS, mkT

ID = "C10"
TITLE = "Calendar arithmetic shifts the local date, then resolves gaps and folds"

MODES = (None, "compatible", "earlier", "later", "raise")
# (months, days)
SHIFTS = [(0, 0), (0, 1), (0, -1), (0, 2), (0, -7), (0, 14), (1, 0), (-1, 0), (6, 0), (-12, 0), (48, 0), (1, 1), (-1, -3), (13, 5), (0, 180)]
TIMES = [0, 1, HOUR_NS, -HOUR_NS, 24 * HOUR_NS, -NS]


def bounds(tier):
    return {
        "zones": "every real and synthetic zone and 6 system zones",
        "targets": "8 local times around each transition (last 6 transitions of every zone with the full operation set; "
        "the others with add(days) and replace_time)" if tier == "quick" else "8 local times around every transition",
        "shifts": f"{SHIFTS} (months, days), from every start that the shift maps to the target, both folds of the start",
        "far": f"from {len(FAR)} zoned and system values to every {FAR_STEP[tier]}th date by days, to every 7th month by months, with some hours",
        "modes": "none (keep the offset when possible) and all four",
        "forms": "add/subtract keywords and deltas, + and -, replace_date, replace, replace_time; combined date and time parts",
    }


def shards(tier):
    synth.install(tier)
    return [("real", c) for c in pool.chunk(pool.keys(), 64)] + [("synth", c) for c in pool.chunk(synth.specs(tier), 16)] + [
        ("system", k) for k in pool.system(tier)] + [("misc",)] + [("far", i) for i in range(len(FAR))]


A_KW = Op("x.add(months=mo, days=dd, **({'disambiguate': mode} if mode else {}))", "x mo dd mode")
S_KW = Op("x.subtract(months=mo, days=dd, **({'disambiguate': mode} if mode else {}))", "x mo dd mode")
A_D = Op("x.add(d, **({'disambiguate': mode} if mode else {}))", "x d mode")
S_D = Op("x.subtract(d, **({'disambiguate': mode} if mode else {}))", "x d mode")
PLUS = Op("x + d", "x d")
MINUS = Op("x - d", "x d")
A_KW0 = Op("x.add(months=mo, days=dd)", "x mo dd")
A_T = Op("x.add(months=mo, days=dd, nanoseconds=t, **({'disambiguate': mode} if mode else {}))", "x mo dd t mode")
A_T2 = Op("x.add(years=y, months=mo, weeks=w, days=dd, hours=h, minutes=m, seconds=s, milliseconds=ms, microseconds=us, nanoseconds=ns)", "x y mo w dd h m s ms us ns")
A_T2M = Op("x.add(years=y, months=mo, weeks=w, days=dd, hours=h, nanoseconds=ns, **({'disambiguate': mode} if mode else {}))", "x y mo w dd h ns mode")
S_T2M = Op("x.subtract(years=y, months=mo, weeks=w, days=dd, hours=h, nanoseconds=ns, **({'disambiguate': mode} if mode else {}))", "x y mo w dd h ns mode")
S_T2 = Op("x.subtract(years=y, months=mo, weeks=w, days=dd, hours=h, minutes=m, seconds=s, milliseconds=ms, microseconds=us, nanoseconds=ns)", "x y mo w dd h m s ms us ns")
R_D = Op("x.replace_date(Date(y, mo, d), **({'disambiguate': mode} if mode else {}))", "x y mo d mode")
R_D0 = Op("x.replace_date(Date(y, mo, d))", "x y mo d")
R = Op("x.replace(year=y, month=mo, day=d, **({'disambiguate': mode} if mode else {}))", "x y mo d mode")
R0 = Op("x.replace(year=y, month=mo, day=d)", "x y mo d")
R_T = Op("x.replace_time(t, **({'disambiguate': mode} if mode else {}))", "x t mode")
R_T0 = Op("x.replace_time(t)", "x t")
R_H = Op("x.replace(hour=h, minute=mi, second=s, nanosecond=ns, **({'disambiguate': mode} if mode else {}))", "x h mi s ns mode")
R_H0 = Op("x.replace(hour=h, minute=mi, second=s, nanosecond=ns)", "x h mi s ns")


class Sub:
    """subject: zoned or system type in a model zone"""

    def __init__(self, z, system):
        self.z, self.system = z, system

    def mk(self, u):
        return mkS(u) if self.system else mkI(u).to_tz(self.z.key)

    def exp(self, u):
        if not cal.in_range(u):
            return RANGE
        o = self.z.offset(u // NS)
        if not cal.in_range(u + o * NS):
            return RANGE
        return eS(u, o) if self.system else eZ(self.z.key, u, o)

    def resolve(self, local, mode, prev):
        """utc ns or Err"""
        if not cal.in_range(local):
            return RANGE
        try:
            if mode is None:
                return self.z.resolve_keep(local // NS, prev) * NS + local % NS
            return self.z.resolve(local // NS, mode) * NS + local % NS
        except Skipped:
            return SKIPPED
        except Repeated:
            return REPEATED

    def to(self, local, mode, prev, extra=0):
        u = self.resolve(local, mode, prev)
        if type(u) is not int:
            return u
        if not cal.in_range(u):
            return RANGE
        return self.exp(u + extra)


def starts(sub, local):
    """values with that local time: [(utc, prev offset, object)]"""
    if not cal.in_range(local):
        return
    k, sol = sub.z.solve(local // NS)
    if k != "ok":
        return
    for s in sol:
        u = s * NS + local % NS
        if cal.in_range(u) and cal.in_range(u - DAY_NS) and cal.in_range(u + DAY_NS):
            yield u, (local - u) // NS, sub.mk(u)


def target(ctx, sub, local, full, shifts):
    n, tod = divmod(local, DAY_NS)
    y, m, d = cal.civil(n)
    for mo, dd in shifts:
        # start date mapped to the target by the shift
        try:
            sd = cal.shift_date(y, m, d, 0, -dd)
            sy, sm, sday = cal.add_months(*sd, -mo)
            if cal.shift_date(sy, sm, sday, mo, dd) != (y, m, d):
                continue
            start = cal.days(sy, sm, sday) * DAY_NS + tod
        except cal.OutOfRange:
            continue
        for u, prev, x in starts(sub, start):
            ctx.states += 1
            if full and not mo and not dd:
                # units that cancel out: nothing may be resolved again
                for mode in MODES:
                    for yy, mm, w, d7 in ((0, 0, 0, 0), (1, -12, 0, 0), (0, 0, -2, 14)):
                        chk(ctx, A_T2M, sub.exp(u), x, yy, mm, w, d7, 0, 0, mode)
                        chk(ctx, S_T2M, sub.exp(u - HOUR_NS), x, yy, mm, w, d7, 1, 0, mode)
            for mode in MODES if full and (mo or dd) else (None,):
                e = sub.to(local, mode, prev)
                chk(ctx, A_KW, e, x, mo, dd, mode)
                if full:
                    chk(ctx, S_KW, e, x, -mo, -dd, mode)
                    if mo * dd >= 0:
                        chk(ctx, A_D, e, x, mkDD(mo, dd), mode)
                        chk(ctx, S_D, e, x, mkDD(-mo, -dd), mode)
                    chk(ctx, R_D, e, x, y, m, d, mode)
                    chk(ctx, R, e, x, y, m, d, mode)
                    if mo == 0 or mode is None:
                        for t in TIMES:
                            chk(ctx, A_T, sub.to(local, mode, prev, t), x, mo, dd, t, mode)
                            if t and mo >= 0 and dd >= 0 and t > 0:
                                et = sub.to(local, mode, prev, t)
                                chk(ctx, A_D, et, x, mkDTD(mo, dd, t), mode)
                                chk(ctx, S_D, et, x, mkDTD(-mo, -dd, -t), mode)
            if full and not (mo or dd):
                # nothing to shift: the mode has nothing to resolve
                for mode in MODES:
                    chk(ctx, R_D, sub.to(local, mode, prev), x, y, m, d, mode)
                    chk(ctx, R, sub.to(local, mode, prev), x, y, m, d, mode)
                    chk(ctx, R_T, sub.to(local, mode, prev), x, mkT(tod), mode)
                    for t in (0, 1, HOUR_NS, -HOUR_NS):
                        e = sub.exp(u + t)
                        chk(ctx, A_T, e, x, 0, 0, t, mode)
                        chk(ctx, A_T2M, e, x, 1, -12, -2, 14, 0, t, mode)
                        chk(ctx, S_T2M, e, x, -3, 36, 0, 0, 0, -t, mode)
                        chk(ctx, A_D, e, x, mkDTD(0, 0, t), mode)
                        chk(ctx, S_D, e, x, mkDTD(0, 0, -t), mode)
                    chk(ctx, A_D, sub.exp(u), x, mkDD(0, 0), mode)
                    chk(ctx, S_D, sub.exp(u), x, mkDD(0, 0), mode)
            if full:
                w, dw = (dd // 7, dd % 7) if dd >= 0 else (-(-dd // 7), -(-dd % 7))
                for mode in MODES:
                    for h, ns in ((0, 0), (1, 0), (-2, 1), (25, -1)):
                        e = sub.to(local, mode, prev, h * HOUR_NS + ns) if mo or dd else sub.exp(u + h * HOUR_NS + ns)
                        chk(ctx, A_T2M, e, x, mo // 12, mo % 12, w, dw, h, ns, mode)
                        chk(ctx, S_T2M, e, x, 0, -mo, -w, -dw, -h, -ns, mode)
                e = sub.to(local, None, prev)
                chk(ctx, A_KW0, e, x, mo, dd)
                chk(ctx, R0, e, x, y, m, d)
                chk(ctx, R_D0, e, x, y, m, d)
                if mo * dd >= 0:
                    chk(ctx, PLUS, e, x, mkDD(mo, dd))
                    chk(ctx, MINUS, e, x, mkDD(-mo, -dd))
                    for t in TIMES:
                        if t * (mo + dd) >= 0:
                            et = sub.to(local, None, prev, t)
                            chk(ctx, PLUS, et, x, mkDTD(mo, dd, t))
                            chk(ctx, MINUS, et, x, mkDTD(-mo, -dd, -t))
    # changing the time of day only
    day = local - tod
    for st in (day, day + 12 * HOUR_NS, day + 24 * HOUR_NS - 1, day + 4 * HOUR_NS, local) if full else (day, day + 24 * HOUR_NS - 1):
        for u, prev, x in starts(sub, st):
            ctx.states += 1
            t = mkT(tod)
            _, _, _, h, mi, s, ns = cal.fields(local)
            for mode in MODES if full else (None,):
                e = sub.to(local, mode, prev)
                chk(ctx, R_T, e, x, t, mode)
                if full:
                    chk(ctx, R_H, e, x, h, mi, s, ns, mode)
            if full:
                e = sub.to(local, None, prev)
                chk(ctx, R_T0, e, x, t)
                chk(ctx, R_H0, e, x, h, mi, s, ns)


def run_zone(ctx, sub, tr, nfull):
    for j, t in enumerate(tr):
        full = ctx.thorough or j >= len(tr) - nfull
        for i, local in enumerate(pool.edge_locals(sub.z, [t])):
            if not full and i not in (2, 4, 5):
                continue
            target(ctx, sub, local, full and (ctx.thorough or i in (1, 2, 4, 5, 6)), SHIFTS if full else SHIFTS[1:3])


def run_real(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z, far=False)
        # the recent ones matter most; zones with rules to 2100 have many alike
        tr = tr[:-120] + tr[-120:][:: 1 if ctx.thorough else 7] if len(tr) > 150 else tr
        run_zone(ctx, Sub(z, False), tr, 2)
    ctx.sample(f"{k}: land on the edges of {len(tr)} transitions from {len(SHIFTS)} calendar shifts")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        run_zone(ctx, Sub(z, False), z.transitions_between(pool.s1(1960), pool.s1(2026))[-2:], 2)
    ctx.sample(f"synthetic {sp}")


def run_system(ctx, k):
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    z = pool.zone(k)
    run_zone(ctx, Sub(z, True), pool.recent(z, 1985), 6)
    ctx.sample(f"SystemDateTime under TZ={k}")


def run_misc(ctx):
    """all unit keywords together; bad calls"""
    import itertools

    k = "Europe/Amsterdam"
    os.environ["TZ"] = k
    time.tzset()
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    for sub in (Sub(pool.zone(k), False), Sub(pool.zone(k), True)):
        for f in ((2023, 3, 26, 3), (2023, 10, 29, 2, 30), (2024, 2, 29, 23, 59, 59, 999_999_999), (2023, 1, 31, 2, 30)):
            local = cal.local_ns(*f)
            for u, prev, x in starts(sub, local):
                n, tod = divmod(local, DAY_NS)
                for y, mo, w, dd in itertools.product((0, 1, -4), (0, 2, -11), (0, 1), (0, -3, 27)):
                    for h, m, s, ms, us, ns in ((0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0), (-1, 30, 1, -5, 7, -999), (25, -61, 61, 1001, -1001, 10**9 + 1)):
                        for sign, op in ((1, A_T2), (-1, S_T2)):
                            ctx.states += 1
                            extra = sign * (h * HOUR_NS + m * 60 * NS + s * NS + ms * 10**6 + us * 1000 + ns)
                            try:
                                ymd = cal.shift_date(*cal.civil(n), sign * (y * 12 + mo), sign * (w * 7 + dd))
                            except cal.OutOfRange:
                                e = RANGE
                            else:
                                e = sub.to(cal.days(*ymd) * DAY_NS + tod, None, prev, extra)
                            chk(ctx, op, e, x, y, mo, w, dd, h, m, s, ms, us, ns)
                for bad in ("x.add(DateDelta(days=1), days=1)", "x.subtract(DateDelta(days=1), hours=1)", "x.add(foo=1)", "x + 1", "x - 'a'", "x.replace(tzinfo=None)",
                            "x.replace(fold=1)", "x.replace(microsecond=1)", "x.replace(offset=1)"):
                    chk(ctx, Op(bad, "x"), TYPE, x)
                chk(ctx, Op("x.add()", "x"), sub.exp(u), x)
                chk(ctx, Op("x.add(disambiguate='raise')", "x"), sub.exp(u), x)
                chk(ctx, Op("x.replace()", "x"), sub.exp(u), x)
    ctx.sample("add(years=, months=, weeks=, days=, hours=, ..., nanoseconds=) all together")


FAR = [("Europe/Paris", (2023, 10, 29, 2, 30)), ("Europe/Paris", (1, 1, 3, 12)), ("America/New_York", (9999, 12, 28, 1, 59, 59, 999_999_999)), ("Australia/Lord_Howe", (2000, 2, 29, 1, 45)),
       ("Africa/Monrovia", (1971, 12, 31)), ("Pacific/Apia", (2011, 12, 31, 9)), ("UTC", (1899, 12, 31, 23)), ("Asia/Kolkata", (1969, 12, 31, 5, 30)), ("system", (1, 1, 10, 12)), ("system", (2023, 10, 29, 2, 30))]
FAR_STEP = {"quick": 199, "thorough": 7}
FAR_D = Op("x.add(days=d, hours=h)", "x d h")
FAR_DS = Op("x.subtract(weeks=w, days=d)", "x w d")
FAR_M = Op("x.add(years=y, months=mo)", "x y mo")


def run_far(ctx, i):
    """every distance"""
    key, f = FAR[i]
    local = cal.local_ns(*f)
    sub = Sub(pool.zone("Europe/Paris" if key == "system" else key), key == "system")
    if sub.system:
        os.environ["TZ"] = "Europe/Paris"
        time.tzset()
        vals.EXTRA_SETUP = "os.environ['TZ'] = 'Europe/Paris'; time.tzset()"
    step = FAR_STEP[ctx.tier]
    n0, tod = divmod(local, DAY_NS)
    y, m, d = cal.civil(n0)
    for u, prev, x in starts(sub, local):
        for n in range(i % step + 3, cal.NDAYS - 3, step):
            k, h = n - n0, n % 24
            ctx.states += 1
            e = sub.to(n * DAY_NS + tod, None, prev)
            chk(ctx, FAR_D, sub.to(n * DAY_NS + tod, None, prev, h * HOUR_NS), x, k, h)
            chk(ctx, FAR_DS, e, x, -k // 7, -k % 7)
        for k in range(-(y * 12 + m - 14) + i % 7, (9999 - y) * 12 + 11 - m, 7):
            ctx.states += 1
            e = sub.to(cal.days(*cal.add_months(y, m, d, k)) * DAY_NS + tod, None, prev)
            chk(ctx, FAR_M, e, x, k // 12, k % 12)
    ctx.sample(f"{x} + days to every {step}th date")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
