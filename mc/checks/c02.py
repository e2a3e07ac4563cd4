from __future__ import annotations

from whenever import Date

from .. import cal
from ..vals import Op, chk

ID = "C02"
TITLE = "Date differences invert date addition and count days exactly"
CENTERS = [(1, 1, 1), (1900, 2, 28), (2000, 3, 1), (2023, 12, 31), (2024, 2, 29), (9999, 12, 31)]


def bounds(tier):
    w = 420 if tier == "quick" else 1600
    return {"pairs": f"all ordered pairs of dates within +-{w} days around {CENTERS}; all pairs of a set of "
            "month edges of 40 years including the extremes"}


def shards(tier):
    w = 420 if tier == "quick" else 1600
    out = []
    for c in CENTERS:
        n = cal.days(*c)
        lo, hi = max(0, n - w), min(cal.NDAYS - 1, n + w)
        for a in range(lo, hi + 1, 60):
            out.append(("near", a, min(a + 60, hi + 1), lo, hi + 1))
    out += [("far", i) for i in range(16)]
    return out


o_sub = Op("a - b", "a b")
o_since = Op("a.days_since(b)", "a b")
o_until = Op("a.days_until(b)", "a b")
o_back = Op("b + (a - b)", "a b")
o_rel = Op("(a < b, a <= b, a == b, a != b, a > b, a >= b, hash(a) == hash(b))", "a b")


def diff(a, b):
    """(months, days) such that b + months then + days == a; months as far as
    possible without passing a"""
    (ya, ma, da), (yb, mb, db) = cal.civil(a), cal.civil(b)
    mo = (ya - yb) * 12 + ma - mb
    if a >= b:
        while cal.days(*cal.add_months(yb, mb, db, mo)) > a:
            mo -= 1
    else:
        while cal.days(*cal.add_months(yb, mb, db, mo)) < a:
            mo += 1
    return mo, a - cal.days(*cal.add_months(yb, mb, db, mo))


def pair(ctx, x, y, a, b):
    mo, dd = diff(a, b)
    r = x - y
    ctx.transitions += 4
    ctx.traces += 4
    if r.in_months_days() != (mo, dd):
        chk(ctx, o_sub, ("DD", mo, dd), x, y)
    if y + r != x:
        chk(ctx, o_back, ("D", *cal.civil(a)), x, y)
    if x.days_since(y) != a - b:
        chk(ctx, o_since, a - b, x, y)
    if x.days_until(y) != b - a:
        chk(ctx, o_until, b - a, x, y)


def run(ctx, shard):
    kind, *p = shard
    if kind == "near":
        a0, a1, lo, hi = p
        ds = [Date(*cal.civil(n)) for n in range(lo, hi)]
        for a in range(a0, a1):
            x = ds[a - lo]
            for b in range(lo, hi):
                pair(ctx, x, ds[b - lo], a, b)
            ctx.states += hi - lo
        ctx.outcomes["near pairs"] += (a1 - a0) * (hi - lo)
        ctx.sample(f"{x} - {ds[-1]} = months/days {diff(a, hi - 1)}")
    else:
        (i,) = p
        ys = [1, 2, 3, 4, 5, 99, 100, 101, 399, 400, 401, 1600, 1899, 1900, 1901, 1969, 1970, 1999, 2000, 2001,
              2023, 2024, 2025, 2099, 2100, 2101, 2399, 2400, 4000, 9995, 9996, 9997, 9998, 9999]
        ns = sorted({cal.days(y, m, d) for y in ys for m, d in
                     [(1, 1), (1, 30), (1, 31), (2, 1), (2, 27), (2, 28), (2, cal.dim(y, 2)), (3, 1), (3, 31), (4, 30),
                      (12, 30), (12, 31)]})
        ds = [Date(*cal.civil(n)) for n in ns]
        for k in range(i, len(ns), 16):
            for j in range(len(ns)):
                pair(ctx, ds[k], ds[j], ns[k], ns[j])
                a, b = ns[k], ns[j]
                chk(ctx, o_rel, (a < b, a <= b, a == b, a != b, a > b, a >= b, a == b or hash(ds[k]) == hash(ds[j])), ds[k], ds[j])
            ctx.states += len(ns)
        ctx.outcomes["far pairs"] += len(ns) * len(range(i, len(ns), 16))
        ctx.sample(f"{ds[i]} - {ds[-1]} = months/days {diff(ns[i], ns[-1])}")
