from __future__ import annotations

import copy
import os
import pickle
import struct

import whenever
import time

from whenever import Weekday

from .. import cal, pool, synth, vals
from ..cal import DAY_NS, EPOCH_S, MAX_DAYS, MAX_MONTHS, MAX_TDELTA, NS
from ..vals import Err, Op, chk, eI, eL, eO, eS, eZ, mkDD, mkDTD, mkI, mkL, mkO, mkS, mkT, mkTD, report, view

ID = "C18"
TITLE = "Pickling and copying give back the identical value"

SYS = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Africa/Monrovia"]


def bounds(tier):
    return {
        "values": "every date (thorough; quick: every 29th), all 512 fraction patterns of Time, boundary alphabets of all deltas, boundary instants x 14 offsets, "
        "every zone and alias around its last 12 transitions (thorough: all), synthetic zones, system times under 4 time zones re-read under the 3 others",
        "whole range": f"instants, local times and all three deltas at every {16 * (7 if tier == 'thorough' else 151)}th of {cal.NDAYS} days, in 16 phases; time deltas at all powers of two",
        "ways": "pickle protocols 0..5, copy, deepcopy, inside containers with sharing; pickles in the released byte format written independently",
    }


def shards(tier):
    synth.install(tier)
    return [("dates", i) for i in range(8)] + [("times", i) for i in range(4)] + [("deltas",)] + [("exact", i) for i in range(8)] + [
        ("zones", c) for c in pool.chunk(pool.keys(), 32)] + [("alias", c) for c in pool.chunk([(k, a) for k, _, al in pool.zone_index() for a in al], 4)] + [
        ("synth", c) for c in pool.chunk(synth.specs(tier), 8)] + [("system", k) for k in SYS] + [("misc",)] + [("far", i) for i in range(16)]


# ---- the released format, written by hand ----------------------------
def golden(name, *args):
    """protocol 4 pickle of whenever.<name>(*args), assembled opcode by opcode"""
    def s(t):
        b = t.encode()
        return b"\x8c" + bytes([len(b)]) + b
    out = b"\x80\x04" + s("whenever") + s(name) + b"\x93("
    for a in args:
        if type(a) is bytes:
            out += b"C" + bytes([len(a)]) + a
        elif type(a) is str:
            out += s(a)
        else:
            b = a.to_bytes(16, "little", signed=True)
            out += b"\x8a" + bytes([16]) + b
    return out + b"tR."


def g_local(local):
    return struct.pack("<HBBBBBI", *cal.fields(local))


def g_off(local, off):
    return struct.pack("<HBBBBBIl", *cal.fields(local), off)


def g_tdelta(ns):
    return struct.pack("<qI", *divmod(ns, NS))


def trunc_split(ns):
    s = cal.trunc_div(ns, NS)
    return s, ns - s * NS


PROTO = [Op(f"pickle.loads(pickle.dumps(x, {p}))", "x") for p in range(6)]
COPY = Op("copy.copy(x)", "x")
DEEP = Op("copy.deepcopy(x)", "x")
NEST = Op("(lambda p: (p[0], p[1]['k'], p[0] is p[1]['k']))(pickle.loads(pickle.dumps((x, {'k': x}))))", "x")
DNEST = Op("copy.deepcopy([x, {'a': x}])[1]['a']", "x")
EQ = Op("(lambda y: (x == y, y == x, hash(x) == hash(y), str(x) == str(y), repr(x) == repr(y), type(x) is type(y)))(pickle.loads(pickle.dumps(x)))", "x")
EXACT = Op("pickle.loads(pickle.dumps(x)).exact_eq(x)", "x")
LOADS = Op("pickle.loads(b)", "b")
AGAIN = Op("pickle.dumps(pickle.loads(pickle.dumps(x))) == pickle.dumps(x)", "x")


def ways(ctx, x, e, gold=None, full=True):
    ctx.states += 1
    if full:
        for op in PROTO:
            chk(ctx, op, e, x)
        chk(ctx, COPY, e, x)
        chk(ctx, DEEP, e, x)
        chk(ctx, NEST, (e, e, True), x)
        chk(ctx, DNEST, e, x)
        chk(ctx, EQ, (True,) * 6, x)
        chk(ctx, AGAIN, True, x)
        if hasattr(x, "exact_eq"):
            chk(ctx, EXACT, True, x)
    else:
        chk(ctx, PROTO[5], e, x)
    if gold is not None:
        chk(ctx, LOADS, e, gold)


def run_dates(ctx, i):
    from whenever import Date, MonthDay, YearMonth

    for n in range(i, cal.NDAYS, 8 if ctx.thorough else 8 * 29):
        y, m, d = cal.civil(n)
        ways(ctx, Date(y, m, d), ("D", y, m, d), golden("_unpkl_date", struct.pack("<HBB", y, m, d)), full=n % 5 == 0)
    for y in range(1 + i, 10000, 8):
        for m in (1, 2, 12):
            ways(ctx, YearMonth(y, m), ("YM", y, m), golden("_unpkl_ym", struct.pack("<HB", y, m)), full=y % 25 == 0)
    for m in range(1, 13):
        for d in range(1 + i, cal.dim(2000, m) + 1, 8):
            ways(ctx, MonthDay(m, d), ("MD", m, d), golden("_unpkl_md", struct.pack("<BB", m, d)))
    ctx.sample(f"Date({y}, {m}, {d}) through 6 pickle protocols, copy, deepcopy")


def run_times(ctx, i):
    from .c15 import FRACS

    tods = sorted({s * NS + f for s in (0, 1, 59, 60, 3599, 3600, 43200, 86399) for f in FRACS} | {s * NS for s in range(0, 86400, 7)})
    for t in tods[i::4]:
        _, _, _, h, m, s, ns = cal.fields(t)
        ways(ctx, mkT(t), ("T", t), golden("_unpkl_time", struct.pack("<BBBI", h, m, s, ns)), full=t % 11 == 0)
    ctx.sample(f"Time of {t} ns since midnight")


def run_deltas(ctx):
    tds = sorted({s * v for s in (1, -1) for v in (0, 1, 999, NS - 1, NS, NS + 1, 2**31, 2**32, 2**33 * NS, 2**53 + 1, 2**63 - 1, 2**63, 2**64 + 3, MAX_TDELTA - 1, MAX_TDELTA, DAY_NS, 400 * 366 * DAY_NS + 1)})
    dds = [(mo, d) for mo in (0, 1, 11, 12, 255, 65536, MAX_MONTHS) for d in (0, 1, 31, 365, 70000, MAX_DAYS)]
    for t in tds:
        ways(ctx, mkTD(t), ("TD", t), golden("_unpkl_tdelta", g_tdelta(t)))
    for mo, d in dds:
        for s in (1, -1):
            ways(ctx, mkDD(s * mo, s * d), ("DD", s * mo, s * d), golden("_unpkl_ddelta", s * mo, s * d))
            for t in tds:
                if t * s >= 0:
                    ways(ctx, mkDTD(s * mo, s * d, t), ("DTD", s * mo, s * d, t), golden("_unpkl_dtdelta", s * mo, s * d, *trunc_split(t)))
    ctx.sample("deltas at the limits of 32, 53 and 64 bits and of the range")


def run_exact(ctx, i):
    us = sorted({u + f for u in pool.BOUNDARY_UTC for f in (0, 123_456_789)} | set(pool.EXTREME_UTC) | {cal.local_ns(y, 1, 1) + 999_999_999 for y in range(1, 10000, 111)})
    for u in us[i::8]:
        if not cal.in_range(u):
            continue
        ways(ctx, mkI(u), eI(u), golden("_unpkl_utc", struct.pack("<qL", u // NS + 86400, u % NS)))
        ways(ctx, mkL(u), eL(u), golden("_unpkl_local", g_local(u)))
        for o in pool.OFFSETS:
            if cal.in_range(u + o * NS):
                ways(ctx, mkO(u, o), eO(u, o), golden("_unpkl_offset", g_off(u + o * NS, o)), full=o in (0, 3600, 1, -86399))
    for o in range(-86399 + i, 86400, 8 if ctx.thorough else 8 * 13):
        ways(ctx, mkO(us[20], o), eO(us[20], o), golden("_unpkl_offset", g_off(us[20] + o * NS, o)), full=False)
    ctx.sample(f"Instant, OffsetDateTime, LocalDateTime at {cal.local_str(u)}")


def zoned(ctx, key, z, us, full):
    for n, u in enumerate(us):
        off = z.offset(u // NS)
        if cal.in_range(u) and cal.in_range(u + off * NS):
            ways(ctx, mkI(u).to_tz(key), eZ(key, u, off), golden("_unpkl_zoned", g_off(u + off * NS, off), key), full=full or n % 40 == 0)


def run_zones(ctx, ks):
    for k in ks:
        z = pool.zone(k)
        tr = pool.transitions(z, far=False)
        zoned(ctx, k, z, pool.edge_instants(z, tr if ctx.thorough else tr[:2] + tr[-12:]), False)
        zoned(ctx, k, z, pool.EXTREME_UTC + pool.BOUNDARY_UTC[::7], True)
    ctx.sample(f"{k}: both sides of every fold and gap edge")


def run_alias(ctx, ks):
    for k, a in ks:
        z = pool.zone(k)
        zoned(ctx, a, z, list(pool.edge_instants(z, pool.transitions(z, far=False)[-2:])) + pool.EXTREME_UTC[3:5], True)
    ctx.sample(f"alias {a}")


def run_synth(ctx, specs):
    synth.install(ctx.tier)
    vals.EXTRA_SETUP = f"from mc import synth; synth.install({ctx.tier!r})"
    for sp in specs:
        z = synth.model(sp)
        zoned(ctx, z.key, z, pool.edge_instants(z, z.transitions_between(pool.s1(1960), pool.s1(2026))[-2:]), False)
    ctx.sample(f"synthetic {sp}")


def settz(k):
    os.environ["TZ"] = k
    time.tzset()


def run_system(ctx, k):
    z = pool.zone(k)
    data = []
    settz(k)
    vals.EXTRA_SETUP = f"os.environ['TZ'] = {k!r}; time.tzset()"
    for t, b, a in pool.recent(z, 1930, 2036)[-40:] if not ctx.thorough else pool.recent(z, 1930, 2036):
        d = abs(b - a)
        for s in (t - d - 1, t - d, t - 1, t, t + d // 2, t + d):
            u, off = s * NS + 7, z.offset(s)
            x = mkS(u)
            ways(ctx, x, eS(u, off), golden("_unpkl_system", g_off(u + off * NS, off)))
            data.append((pickle.dumps(x), eS(u, off)))
    # a pickle is independent of the time zone of the system that reads it
    for k2 in SYS:
        if k2 != k:
            settz(k2)
            vals.EXTRA_SETUP = f"os.environ['TZ'] = {k2!r}; time.tzset()"
            for b, e in data:
                ctx.states += 1
                chk(ctx, LOADS, e, b)
    ctx.sample(f"SystemDateTime pickled under {k}, read under {SYS}")


def run_far(ctx, i):
    """values from the whole range: every magnitude, every date"""
    from .c15 import FRACS

    step = 16 * (7 if ctx.thorough else 151)
    for j, n in enumerate([*range(i, 4000, 16), *range(i, cal.NDAYS, step)]):
        f = FRACS[j % len(FRACS)]
        u = n * DAY_NS + (n * 7919) % 86400 * NS + f
        ways(ctx, mkI(u), eI(u), golden("_unpkl_utc", struct.pack("<qL", u // NS + 86400, u % NS)), full=False)
        ways(ctx, mkL(u), eL(u), golden("_unpkl_local", g_local(u)), full=False)
        s = -1 if n % 2 else 1
        for t in (n * DAY_NS, -n * DAY_NS, s * (n * DAY_NS + f), -s * n * NS, s * n * 3600 * NS, s * n, s * (n * 2**40 + 1) % MAX_TDELTA):
            ways(ctx, mkTD(t), ("TD", t), golden("_unpkl_tdelta", g_tdelta(t)), full=False)
        mo = n % (MAX_MONTHS + 1)
        ways(ctx, mkDD(s * mo, s * n), ("DD", s * mo, s * n), golden("_unpkl_ddelta", s * mo, s * n), full=False)
        t = s * n * 10**13 + s * f
        ways(ctx, mkDTD(s * mo, s * n, t), ("DTD", s * mo, s * n, t), golden("_unpkl_dtdelta", s * mo, s * n, *trunc_split(t)), full=False)
    for k in range(70):
        for e in (-1, 0, 1):
            for t in (2**k + e, -(2**k) - e):
                if abs(t) <= MAX_TDELTA:
                    ways(ctx, mkTD(t), ("TD", t), golden("_unpkl_tdelta", g_tdelta(t)))
    ctx.sample(f"values at day {n} of the range")


def run_misc(ctx):
    for wd in Weekday:
        for p in range(6):
            ctx.states += 1
            chk(ctx, Op(f"pickle.loads(pickle.dumps(x, {p})) is x", "x"), True, wd)
    # many values of all kinds in one pickle: sharing and order survive
    xs = [mkI(u) for u in pool.BOUNDARY_UTC] + [mkL(u) for u in pool.BOUNDARY_UTC] + [mkO(u, 3600) for u in pool.BOUNDARY_UTC] + [
        mkI(u).to_tz(k) for u in pool.BOUNDARY_UTC for k in pool.FEATURED[:6]] + [mkTD(5), mkDD(1, 2), mkDTD(1, 2, 3), mkT(9)]
    for p in range(6):
        ctx.transitions += 1
        ctx.traces += 1
        ys = pickle.loads(pickle.dumps(xs + xs[::-1], p))
        if [view(y) for y in ys] != [view(x) for x in xs + xs[::-1]] or any(a is not b for a, b in zip(ys, ys[::-1])):
            report(ctx, Op(f"[view(y) for y in pickle.loads(pickle.dumps(xs, {p}))] == [view(x) for x in xs]", "xs", view=view), "True", "False", (xs,))
    # corrupt data never yields a value outside the model
    BAD = Err(Exception)
    for b in (golden("_unpkl_zoned", g_off(cal.local_ns(2023, 3, 26, 2, 30), 3600), "Europe/Amsterdam"), golden("_unpkl_zoned", g_off(cal.local_ns(2023, 7, 1), 3600), "Europe/Amsterdam"),
              golden("_unpkl_date", struct.pack("<HBB", 2023, 2, 29)), golden("_unpkl_time", struct.pack("<BBBI", 24, 0, 0, 0))):
        if whenever._EXTENSION_LOADED:  # trusts the data, see C30
            continue
        chk(ctx, LOADS, BAD, b)
    ctx.sample(f"{len(xs)} values of all types in one pickle")


def run(ctx, shard):
    kind, *a = shard
    vals.EXTRA_SETUP = ""
    globals()["run_" + kind](ctx, *a)
