"""pH solver: mean of the per-point alkalinities inside the window."""

import numpy as np

from calkulate import core

from props.common import (GROUPS, MA, MOL, TYPICAL, around, ideal_h, pick,
                          reference_species, rms)
from symx.engine import Harness

ASSUMPTIONS = ["real arithmetic in place of IEEE-754"]
FULL = tuple(k for k in GROUPS if k not in ("total_alpha", "total_beta"))
SETS = {
    "none": (), "sulfate": ("total_sulfate",), "full": FULL,
    "users": ("total_alpha", "total_beta"), "dic": ("dic",),
}


def solve(ctx, n, sub, std, norms, arrays=True, masks=None):
    norm = ctx.choice("normality", norms)
    kw = {}
    if norm == "free":
        norm = kw["titrant_normality"] = ctx.real(
            "norm", lo=0.1, hi=3, nice=(1.9, 2.1))
    typ = {k: TYPICAL[k] for k in sub}
    kt = {k: TYPICAL[k] for g in sub for k in GROUPS[g]}
    kt["k_water"] = TYPICAL["k_water"]
    tms = [2.45e-3 + 3e-4 * i for i in range(n)]
    hs = [ideal_h(m, typ, kt) for m in tms]
    tm = ctx.arr([ctx.real(f"tm[{i}]", lo=0, hi=0.05, nice=around(m, 1e-3))
                  for i, m in enumerate(tms)])
    h = [ctx.real(f"h[{i}]", lo=1e-10, hi=1, nice=around(v, 0.05))
         for i, v in enumerate(hs)]
    if ctx.sym:
        ph = ctx.arr([-(v.log10()) for v in h])
    else:
        ph = -np.log10(np.array(h))
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 1e-2))
    mol = ctx.real("mol", lo=0.01, hi=1, nice=around(MOL, 1e-2))
    temp = ctx.vec("t", n, lo=0, hi=50, nice=(20, 30))
    tot, ks = {}, {}
    for g in sub:
        v = ctx.real(g, lo=1e-9, hi=0.1, nice=around(typ[g], 0.02))
        tot[g] = ctx.arr([v * ma / (ma + tm[i]) for i in range(n)])
        for k in GROUPS[g]:
            b = dict(lo=1e-16, hi=10, nice=around(kt[k], 0.02))
            if k == "k_alpha":
                b["hi"] = 3.1e-5
            if k == "k_beta":
                b["lo"] = 3.2e-5
            ks[k] = ctx.arr([ctx.real(f"{k}[{i}]", **b) for i in range(n)]
                            ) if arrays else ctx.real(k, **b)
    ks["k_water"] = ctx.real("k_water", lo=1e-16, hi=1e-10,
                             nice=around(kt["k_water"], 0.02))
    # which points are in the window (limits themselves: C11)
    used = ctx.choice("mask", masks)
    win = ctx.flag("own_window")
    lo, hi = (3, 4)
    if win:
        lo, hi = 2.5, 6
        kw.update(pH_min=lo, pH_max=hi)
    for i in range(n):
        if used[i]:
            ctx.assume(h[i] < 10.0**-lo * 0.999)
            ctx.assume(h[i] > 10.0**-hi * 1.001)
        elif i == 0:
            ctx.assume(h[i] < 10.0**-hi * 0.999)
        else:
            ctx.assume(h[i] > 10.0**-lo * 1.001)
    r = core.solve_pH(mol, tm, ph, temp, ma, tot, ks, **kw)
    idx = [i for i in range(n) if used[i]]
    each = []
    for i in range(n):
        ctx.true(f"used {i}", bool(r.used[i]) == bool(used[i]))
        _, a = reference_species(h[i], pick(tot, i), pick(ks, i))
        v = 1e6 * (a * (ma + tm[i]) + tm[i] * mol * norm) / ma
        each.append(v)
        ctx.eq(f"alkalinity_all {i}", r.alkalinity_all[i], v)
    m = 0
    for i in idx:
        m = m + r.alkalinity_all[i]
    ctx.eq("mean", r.alkalinity, m / len(idx))
    if std:
        ctx.eq("std", r.alkalinity_std,
               rms([r.alkalinity_all[i] for i in idx]), rtol=1e-5, atol=1e-9)
    for k, v in (("titrant_mass", tm), ("pH", ph), ("temperature", temp),
                 ("analyte_mass", ma), ("titrant_molinity", mol)):
        ctx.eq("returned " + k, getattr(r, k), v)


def many(ctx, n):
    """as many points as a real titration has; concrete data, symbolic acid"""
    ma = 0.125
    mol = ctx.real("mol", lo=0.01, hi=1, nice=around(MOL, 1e-3))
    ph = [3.95 - 0.9 * i / n + 0.01 * ((7 * i) % 5) for i in range(n)]
    tm = [2.4e-3 + 1.6e-3 * i / n for i in range(n)]
    r = core.solve_pH(mol, np.array(tm), np.array(ph), np.full(n, 25.0), ma,
                      {}, {})
    used = [3 <= p <= 4 for p in ph]
    each = [1e6 * (tm[i] * mol - (ma + tm[i]) * 10.0 ** -ph[i]) / ma
            for i in range(n)]
    ctx.true("used", [bool(u) for u in r.used] == used)
    some = [v for v, u in zip(each, used) if u]
    ctx.eq("mean", r.alkalinity, sum(some) / len(some))
    ctx.eq("each", r.alkalinity_all, ctx.arr(each))
    some = [r.alkalinity_all[i] for i in range(n) if used[i]]
    ctx.eq("std", r.alkalinity_std, rms(some), rtol=1e-5, atol=1e-9)


def masks(n):
    full = (1,) * n
    return [full, (0,) + (1,) * (n - 1), (1,) * (n - 1) + (0,),
            (0,) + (1,) * (n - 2) + (0,)]


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 5
    out = []
    for name, sub in SETS.items():
        big = len(sub) > 2
        out.append(Harness(
            name, solve, f"{n} points, totals {list(sub)}, 4 sets of points "
            "used, default and own window",
            dict(n=n, sub=sub, std=len(sub) < 2, masks=masks(n),
                 norms=["free"] if big else [1, "free"]),
            time_limit=240 if q else 1500))
    for m in (12, 40) if q else (12, 40, 120):
        out.append(Harness(f"many_{m}", many, f"{m} points with concrete pH, "
                           "symbolic molinity", dict(n=m),
                           time_limit=240 if q else 1500))
    out.append(Harness(
        "scalar_constants", solve, f"{n} points, scalar constants",
        dict(n=n, sub=("total_borate", "total_fluoride"), std=False,
             masks=masks(n)[:1], norms=[1], arrays=False),
        time_limit=240 if q else 1500))
    return out
