from __future__ import annotations

import os
import time

from whenever import DateDelta, DateTimeDelta, RepeatedTime, SkippedTime, TimeDelta

from .. import cal, pool, synth, tzmodel, vals
from ..cal import DAY_NS, HOUR_NS, NS
from ..vals import RANGE, REPEATED, SKIPPED, Err, Op, chk, eS, mkI, mkS, report, view
from .c10 import Sub
from .c14 import day

ID = "C12"
TITLE = "The system-zone type behaves as a zoned value of the current system zone"

# operations on a value x (and its clock reading l = x.local(), C(...) the
# constructor and B the zone attachment of the type): the same text is run on
# both types
OPS = """
x.instant()
(x.year, x.month, x.day, x.hour, x.minute, x.second, x.nanosecond)
x.offset
x.date()
x.time()
x.local()
x.to_tz('Asia/Kathmandu')
x.to_fixed_offset()
x.to_fixed_offset(5)
x.timestamp()
x.timestamp_millis()
x.timestamp_nanos()
x.is_ambiguous()
x.start_of_day()
x.day_length()
x.round('day')
x.round('day', mode='ceil')
x.round('hour')
x.round('hour', mode='ceil')
x.round('minute', 15, mode='floor')
x.round('hour', 12, mode='half_ceil')
x + TimeDelta(hours=1)
x - TimeDelta(nanoseconds=1)
x + TimeDelta(hours=24)
x + DateDelta(days=1)
x - DateDelta(days=1)
x + DateDelta(months=1)
x - DateTimeDelta(months=1, hours=3)
x + DateTimeDelta(days=1, nanoseconds=1)
x.add(days=1, disambiguate='earlier')
x.add(days=1, disambiguate='later')
x.add(days=1, disambiguate='raise')
x.subtract(days=1, disambiguate='raise')
x.subtract(days=1)
x.add(hours=-1, minutes=30)
x.add(DateDelta(months=-1), disambiguate='later')
x.add(years=1, days=-1, hours=2)
x.add(weeks=-1, nanoseconds=1)
x.replace(hour=2, minute=30)
x.replace(hour=2, minute=30, disambiguate='raise')
x.replace(hour=0, minute=0, disambiguate='later')
x.replace(day=1, disambiguate='earlier')
x.replace(nanosecond=7)
x.replace(nanosecond=7, disambiguate='raise')
x.replace(nanosecond=7, disambiguate='earlier')
x.replace(nanosecond=7, disambiguate='later')
x.replace(nanosecond=7, disambiguate='compatible')
x.replace(nanosecond=10**9)
x.replace(day=32)
x.replace_time(Time(2, 30))
x.replace_time(Time(2, 30), disambiguate='later')
x.replace_time(Time(), disambiguate='raise')
x.replace_time(Time(1, 45, 7, nanosecond=1))
x.replace_time(x.time())
x.replace_time(x.time().replace(nanosecond=123_456_789))
x.replace_time(x.time().replace(second=59, nanosecond=999_999_999), disambiguate='compatible')
x.replace(second=59, nanosecond=999_999_999)
x.replace_date(x.date())
x.replace_date(x.date(), disambiguate='raise')
x.replace_date(x.date().add(days=1))
x.replace_date(x.date().subtract(days=1), disambiguate='earlier')
B(l, 'compatible')
B(l, 'earlier')
B(l, 'later')
B(l, 'raise')
B(l)
C(l, 'compatible')
C(l, 'earlier')
C(l, 'later')
C(l, 'raise')
C(l, None)
N(x)
x.instant() == x
x == x.to_tz('UTC')
x.exact_eq(N(x))
x == N(x)
x < N(x.add(nanoseconds=1))
hash(x) == hash(x.instant())
x - x.to_tz('Asia/Kathmandu')
x.add(hours=5) - x
x - x.subtract(hours=5)
x.py_datetime().utcoffset()
x.py_datetime().replace(tzinfo=None)
x.format_common_iso()[:19 + 10 * (x.nanosecond != 0)]
""".strip().splitlines()

HELPERS_SYS = """
def C(l, mode):
    kw = {} if mode is None else {"disambiguate": mode}
    return SystemDateTime(l.year, l.month, l.day, l.hour, l.minute, l.second, nanosecond=l.nanosecond, **kw)
def B(l, *mode):
    return l.assume_system_tz(*[], **({"disambiguate": mode[0]} if mode else {}))
def N(x):
    return x.instant().to_system_tz()
"""
HELPERS_Z = """
def C(l, mode):
    kw = {} if mode is None else {"disambiguate": mode}
    return ZonedDateTime(l.year, l.month, l.day, l.hour, l.minute, l.second, nanosecond=l.nanosecond, tz=TZKEY[0], **kw)
def B(l, *mode):
    return l.assume_tz(TZKEY[0], **({"disambiguate": mode[0]} if mode else {}))
def N(x):
    return x.instant().to_tz(TZKEY[0])
"""
TZKEY = [""]


def _env(src):
    import whenever

    e = dict(vars(whenever))
    e["TZKEY"] = TZKEY
    exec(src, e)
    return {k: e[k] for k in "CBN"}


S_ENV, Z_ENV = _env(HELPERS_SYS), _env(HELPERS_Z)
S_OPS = [Op(s, "x l", **S_ENV) for s in OPS]
Z_OPS = [Op(s, "x l", **Z_ENV) for s in OPS]


def bounds(tier):
    return {
        "zones": "every real zone file of the system and every synthetic zone",
        "instants": "9 around each of the last transitions of each (before, after) kind per zone; all of 1970-2037 for featured zones (and for all zones in the thorough tier)",
        "operations": f"{len(OPS)} expressions, run on the system-zone value and on the zoned value of the same zone",
        "histories": f"breadth-first over zone changes and {len(H_OPS)} operations, depth {depth(tier)}",
    }


def depth(tier):
    return 4 if tier == "quick" else 6


def sys_keys():
    return [k for k in pool.keys() if os.path.exists(os.path.join(tzmodel.ZONEINFO, k))]


def shards(tier):
    synth.install(tier)
    out = [("real", c) for c in pool.chunk(sys_keys(), 40)] + [("synth", c) for c in pool.chunk(synth.specs(tier), 16)]
    out += [("feat", k) for k in pool.FEATURED]
    out += [("hist", i, j) for i in range(len(TRIPLES)) for j in range(len(H_OPS))]
    return out


def set_tz(tz):
    os.environ["TZ"] = tz
    time.tzset()


def strip(v):
    """view without the zone name, system and zoned alike"""
    if type(v) is tuple and v and v[0] == "Z":
        return ("S", *v[2:])
    if type(v) is tuple:
        return tuple(map(strip, v))
    return v


def libc_agrees(z, lo, hi):
    """libc's idea of the zone at all points that matter: [lo, hi] utc seconds"""
    pts = {lo, hi}
    for t, b, a in z.transitions_between(lo, hi):
        pts |= {t - 1, t}
    return all(time.localtime(p - cal.EPOCH_S).tm_gmtoff == z.offset(p) for p in pts)


def kinds(tr, per):
    seen, out = {}, []
    for t in reversed(tr):
        k = (t[1], t[2])
        if seen.get(k, 0) < per:
            seen[k] = seen.get(k, 0) + 1
            out.append(t)
    return out


def compare(ctx, z, tzname, u):
    if not (cal.in_range(u - 400 * DAY_NS) and cal.in_range(u + 400 * DAY_NS)):
        return
    s, zx = mkS(u), mkI(u).to_tz(z.key)
    ls, lz = s.local(), zx.local()
    ctx.states += 1
    for so, zo in zip(S_OPS, Z_OPS):
        ctx.transitions += 2
        ctx.traces += 1
        try:
            ez = strip(view(zo.f(zx, lz)))
        except Exception as e:  # noqa: BLE001
            ez = Err(type(e))
        try:
            got = strip(view(so.f(s, ls)))
        except Exception as e:  # noqa: BLE001
            if type(ez) is Err and (isinstance(e, ez.types) or isinstance(e, RANGE.types) and issubclass(ez.types[0], RANGE.types)
                                    and not isinstance(e, (SkippedTime, RepeatedTime))):
                ctx.outcomes["err:" + ez.text] += 1
                continue
            got = type(e).__name__
        if got != ez:
            vals.EXTRA_SETUP = f"os.environ['TZ'] = {tzname!r}; time.tzset()\nfrom mc.checks.c12 import strip as _st\nimport mc.checks.c12 as _c12\n_v = view\nview = lambda v: _st(_v(v)){HELPERS_SYS}"
            report(ctx, so, ez, got if isinstance(got, str) and type(ez) is Err else repr(got), (s, ls), f"ZonedDateTime of {z.key} gives {ez}")
            vals.EXTRA_SETUP = ""


def run_zone(ctx, z, tzname, tr):
    set_tz(tzname)
    TZKEY[0] = z.key
    skipped = 0
    for t in tr:
        if not libc_agrees(z, t[0] - 500 * 86400, t[0] + 500 * 86400):
            skipped += 1
            continue
        if abs(t[1] - t[2]) > 86400 or any(o[0] != t[0] for o in z.transitions_between(t[0] - 2 * 86400, t[0] + 2 * 86400)):
            # CPython's own conversion of naive local times assumes at most one transition, of at most 24 hours, in 24 hours
            ctx.outcomes["transitions less than two days apart or of more than a day (skipped)"] += 1
            continue
        for u in pool.edge_instants(z, [t]):
            compare(ctx, z, tzname, u)
    ctx.outcomes["transitions"] += len(tr) - skipped
    if skipped:
        ctx.outcomes["transitions where libc itself disagrees with the tz data (skipped)"] += skipped


def run_real(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.recent(z, 1970, 2037)
        if not ctx.thorough:
            tr = kinds(tr, 1)[:4]
        run_zone(ctx, z, k, tr or [(pool.s1(2020, 3, 1), 0, 0)])
    ctx.sample(f"{k}: {len(OPS)} operations at 9 instants around {len(tr)} transitions")


def run_feat(ctx, k):
    if not os.path.exists(os.path.join(tzmodel.ZONEINFO, k)):
        return
    z = pool.zone(k)
    run_zone(ctx, z, k, kinds(pool.recent(z, 1950, 2037), 6 if not ctx.thorough else 99))


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    for sp in specs:
        z = synth.model(sp)
        run_zone(ctx, z, ":" + os.path.join(synth._dir, sp[0]), z.transitions_between(pool.s1(1970), pool.s1(2026))[-2:])
    ctx.sample(f"synthetic system zone {sp}")


# ---- histories of zone changes ---------------------------------------
TRIPLES = [
    (("Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe"), (2023, 10, 29, 2, 30)),
    (("Europe/Amsterdam", "Africa/Casablanca", "UTC"), (2023, 3, 26, 1, 45)),
    (("America/New_York", "America/St_Johns", "Pacific/Apia"), (2011, 11, 6, 1, 30)),
    (("America/Sao_Paulo", "Pacific/Apia", "Europe/Dublin"), (2011, 12, 30, 10, 0)),
    (("Antarctica/Troll", "Europe/London", "Asia/Tehran"), (2022, 3, 21, 23, 30)),
]

# state: (zone index, utc, offset)
# ops:   (source, model(sub, utc, off) -> expected view | Err)


def _local(u, off):
    return u + off * NS


def m_exact(ns):
    return lambda sub, u, off: sub.exp(u + ns)


def m_keep(sub, u, off):
    return eS(u, off)


def m_cal(mo, dd, mode=None, extra=0):
    def f(sub, u, off):
        n, tod = divmod(_local(u, off), DAY_NS)
        y, m, d = cal.shift_date(*cal.civil(n), mo, dd)
        return sub.to(cal.days(y, m, d) * DAY_NS + tod, mode, off, extra)

    return f


def m_tod(f, mode=None):
    def g(sub, u, off):
        n, tod = divmod(_local(u, off), DAY_NS)
        return sub.to(n * DAY_NS + f(tod), mode, off)

    return g


def m_assume(mode):
    return lambda sub, u, off: sub.to(_local(u, off), mode, off)


def m_sod(sub, u, off):
    return sub.exp(day(sub, u, off)[0])


H = [
    ("x + TimeDelta(hours=1)", m_exact(HOUR_NS)),
    ("x - TimeDelta(hours=1)", m_exact(-HOUR_NS)),
    ("x.add(hours=23, minutes=60)", m_exact(DAY_NS)),
    # no calendar part: nothing may be resolved again
    ("x + DateTimeDelta(hours=3)", m_exact(3 * HOUR_NS)),
    ("x - DateTimeDelta(hours=3)", m_exact(-3 * HOUR_NS)),
    ("x.add(DateTimeDelta(minutes=90))", m_exact(3 * HOUR_NS // 2)),
    ("x - DateDelta.ZERO", m_exact(0)),
    ("x.add(years=1, months=-12, hours=1, disambiguate='later')", m_exact(HOUR_NS)),
    ("x.subtract(weeks=-1, days=7, disambiguate='earlier')", m_exact(0)),
    ("x + DateDelta(days=1)", m_cal(0, 1)),
    ("x.subtract(days=1)", m_cal(0, -1)),
    ("x.add(days=1, disambiguate='later')", m_cal(0, 1, "later")),
    ("x.add(months=1, days=-30, hours=1)", m_cal(1, -30, None, HOUR_NS)),
    ("x.to_system_tz()", m_exact(0)),
    ("x.instant().to_system_tz()", m_exact(0)),
    ("x.to_tz('Asia/Kathmandu').to_system_tz()", m_exact(0)),
    ("x.local().assume_system_tz(disambiguate='compatible')", m_assume("compatible")),
    ("x.local().assume_system_tz(disambiguate='earlier')", m_assume("earlier")),
    ("x.local().assume_system_tz(disambiguate='later')", m_assume("later")),
    ("x.local().assume_system_tz(disambiguate='raise')", m_assume("raise")),
    ("x.replace(nanosecond=0)", m_tod(lambda t: t // NS * NS)),
    ("x.replace(minute=30)", m_tod(lambda t: t // HOUR_NS * HOUR_NS + HOUR_NS // 2 + t % (60 * NS))),
    ("x.replace(minute=30, disambiguate='earlier')", m_tod(lambda t: t // HOUR_NS * HOUR_NS + HOUR_NS // 2 + t % (60 * NS), "earlier")),
    ("x.replace_time(Time(1, 30))", m_tod(lambda t: HOUR_NS * 3 // 2)),
    ("x.replace_time(Time(2, 15), disambiguate='raise')", m_tod(lambda t: HOUR_NS * 9 // 4, "raise")),
    ("x.replace_date(x.date())", m_tod(lambda t: t)),
    ("x.round('hour')", m_tod(lambda t: cal.round_int(t, HOUR_NS, "half_even"))),
    ("x.start_of_day()", m_sod),
    ("pickle.loads(pickle.dumps(x))", m_keep),
    ("SystemDateTime.parse_common_iso(x.format_common_iso())", m_keep),
    ("SystemDateTime.from_timestamp_nanos(x.timestamp_nanos())", m_exact(0)),
]
H_OPS = [(Op(s, "x"), m, s) for s, m in H]
OBS = Op("(x, x.instant(), x.to_fixed_offset(), str(x))", "x")


def succ(ctx, zones, tz, x, u, off, i):
    """apply operation i in the zone; (utc, off, object) or None"""
    op, m, src = H_OPS[i]
    sub = Sub(zones[tz], True)
    e = m(sub, u, off)
    ctx.transitions += 1
    ctx.traces += 1
    try:
        y = op.f(x)
        got = view(y)
    except Exception as ex:  # noqa: BLE001
        if type(e) is Err and isinstance(ex, e.types):
            ctx.outcomes["err:" + e.text] += 1
            return None
        y, got = None, type(ex).__name__
    if got != e:
        return e, got
    return e[3], e[2] // NS, y


def run_hist(ctx, i, first):
    tzs, start = TRIPLES[i]
    zones = [pool.zone(k) for k in tzs]
    if not all(os.path.exists(os.path.join(tzmodel.ZONEINFO, k)) for k in tzs):
        return
    # breadth-first; a node is (zone, utc, off) with the history that reached it
    seen = {}
    frontier = []
    for k in range(3):
        set_tz(tzs[k])
        sub = Sub(zones[k], True)
        for mode in ("earlier", "later"):
            u = sub.resolve(cal.local_ns(*start), mode, 0)
            off = zones[k].offset(u // NS)
            x = mkS(u)
            key = (k, u, off)
            if key not in seen:
                seen[key] = 1
                frontier.append((key, x, [f"TZ={tzs[k]}: x = {vals.lit(x)}"]))
    nmax = depth(ctx.tier)
    # each shard explores the subtree of one first operation from every start
    for lev in range(nmax):
        nxt = []
        for (k, u, off), x, hist in frontier:
            for k2 in range(3):
                set_tz(tzs[k2])
                if k2 != k:
                    # the change of zone alone leaves the value as it was
                    chk(ctx, OBS, (eS(u, off), ("I", u), ("O", u + off * NS, off * NS, u), cal.local_str(u + off * NS) + cal.off_str(off)), x)
                for j in ([first] if lev == 0 else range(len(H_OPS))):
                    r = succ(ctx, zones, k2, x, u, off, j)
                    ctx.states += 1
                    if r is None:
                        continue
                    h = hist + [f"TZ={tzs[k2]}: x = {H_OPS[j][2]}"]
                    if len(r) == 2:
                        vals.EXTRA_SETUP = f"os.environ['TZ'] = {tzs[k2]!r}; time.tzset()"
                        report(ctx, H_OPS[j][0], r[0], r[1], (x,), "history: " + "; ".join(h))
                        vals.EXTRA_SETUP = ""
                        continue
                    key = (k2, r[0], r[1])
                    if key not in seen:
                        seen[key] = 1
                        nxt.append((key, r[2], h))
        frontier = nxt
        ctx.outcomes[f"histories: new states at depth {lev + 1}"] += len(nxt)
    ctx.sample("; ".join(frontier[-1][2] if frontier else []))


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
