"""Dilution and titrant additions conserve amounts."""

import numpy as np

from calkulate import convert, core

from props.common import GROUPS, TYPICAL, around
from symx.engine import Harness

ASSUMPTIONS = ["real arithmetic in place of IEEE-754",
               "analyte mass > 0, titrant mass >= 0"]
PY = ("TB", "TF", "TSO4", "TCa", "alpha", "beta", "TPO4", "TSi", "TNH3",
      "TH2S")


def masses(ctx, n, scalar=False):
    ma = ctx.real("ma", 1e-6, 1e3, (0.05, 0.2))
    kw = dict(lo=0, hi=1e3, nice=(0, 5e-3))
    mt = ctx.real("mt", **kw) if scalar else ctx.vec("mt", n, **kw)
    return ma, mt


def factor(ctx, n, scalar):
    ma, mt = masses(ctx, n, scalar)
    f = convert.get_dilution_factor(mt, ma)
    ctx.eq("factor * mixture = analyte", f * (mt + ma), ma)


def totals_of(ctx, keys, n, kind):
    t = {}
    for k in keys:
        kw = dict(lo=0, hi=1e3, nice=around(TYPICAL.get(k, 1e-3), 0.3))
        t[k] = ctx.real(k, **kw) if kind == "scalar" else ctx.vec(k, n, **kw)
    return t


def snapshot(t):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in t.items()}


def dilute(ctx, n, kind):
    ma, mt = masses(ctx, n)
    t = totals_of(ctx, list(GROUPS), n, kind)
    before = snapshot(t)
    d = convert.dilute_totals(t, mt, ma)
    ctx.true("same totals", set(d) == set(t))
    for k in t:
        ctx.eq(f"{k}: amount conserved", d[k] * (mt + ma), before[k] * ma
               + 0 * mt)
        ctx.eq(f"{k}: input untouched", t[k], before[k])


def dilute_py(ctx, n, acid):
    ma, mt = masses(ctx, n)
    c = ctx.real("c", 1e-6, 1e2, (0.05, 0.2))
    sal = ctx.real("Sal", 0, 100, (30, 40))
    peng = ctx.real("Peng", 0, 1, (0, 1e-5))
    t = {k: ctx.real(k, 0, 1e3, (1e-6, 1e-2)) for k in PY}
    t["Sal"], t["PengCorrection"] = sal, peng
    before = dict(t)
    if acid:
        d = convert.dilute_totals_pyco2_H2SO4(t, c, mt, ma)
    else:
        d = convert.dilute_totals_pyco2(t, mt, ma)
    ctx.true("same entries", set(d) == set(before))
    for k in PY:
        amount = before[k] * ma + 0 * mt
        if acid and k == "TSO4":
            amount = amount + c * mt
        ctx.eq(f"{k}: amount conserved", d[k] * (mt + ma), amount)
    ctx.eq("salinity kept", d["Sal"], sal)
    ctx.true("input untouched", all(t[k] is before[k] for k in before))


def dilute_acid(ctx, n):
    """H2SO4 titrant: sulfate amount = analyte's + titrant's"""
    ma, mt = masses(ctx, n)
    c = ctx.real("c", 1e-6, 1e2, (0.05, 0.2))
    t = totals_of(ctx, list(GROUPS), n, "scalar")
    d = convert.dilute_totals_H2SO4(t, c, mt, ma)
    ctx.true("same totals", set(d) == set(t))
    for k in t:
        amount = t[k] * ma + 0 * mt
        if k == "total_sulfate":
            amount = amount + c * mt
        ctx.eq(f"{k}: amount conserved", d[k] * (mt + ma), amount)


def add_titrant(ctx, n):
    ma, mt = masses(ctx, n)
    c = ctx.real("c", 1e-6, 1e2, (0.05, 0.2))
    p = ctx.real("prev", 0, 1e2, (0, 0.2))
    t = totals_of(ctx, list(GROUPS), n, "array")
    before = snapshot(t)
    which = ctx.choice("titrant", [
        (), ("sulfate",), ("phosphate",), ("fluoride",),
        ("sulfate", "fluoride"), ("sulfate", "phosphate", "fluoride")])
    fac = {f"titrant_total_{k}": ctx.real(f"f_{k}", -10, 10, (0.5, 2))
           for k in which}
    d = core.add_titrant_totals(t, mt, ma, c, titrant_molinity_prev=p, **fac)
    ctx.true("same totals", set(d) == set(before))
    for k in before:
        amount = before[k] * (mt + ma)
        f = fac.get("titrant_" + k)
        if f is not None:
            amount = amount + mt * (c - p) * f
        ctx.eq(f"{k}: amount balance", d[k] * (mt + ma), amount,
               atol=1e-14)
    # removing what was added restores the totals
    d2 = core.add_titrant_totals(d, mt, ma, p, titrant_molinity_prev=c, **fac)
    for k in before:
        ctx.eq(f"{k}: addition reversible", d2[k], before[k], atol=1e-12)
    if which:
        # default: nothing was added before
        t3 = {k: v.copy() for k, v in before.items()}
        d3 = core.add_titrant_totals(t3, mt, ma, c, **fac)
        k = "total_" + which[0]
        ctx.eq("default prev is 0", d3[k] * (mt + ma), before[k] * (mt + ma)
               + mt * c * fac["titrant_" + k], atol=1e-14)


def absent(ctx, n):
    """a titrant that carries something the analyte does not contain"""
    ma, mt = masses(ctx, n)
    c = ctx.real("c", 1e-6, 1e2, (0.05, 0.2))
    which = ctx.choice("titrant", ["phosphate", "sulfate", "fluoride"])
    k = "total_" + which
    t = totals_of(ctx, [g for g in GROUPS if g != k], n, "array")
    before = snapshot(t)
    f = ctx.real("f", -10, 10, (0.5, 2))
    kw = {"titrant_" + k: f}
    d = core.add_titrant_totals(t, mt, ma, c, titrant_molinity_prev=0, **kw)
    ctx.true("its content is there", k in d)
    ctx.eq("amount balance", d[k] * (mt + ma), mt * c * f, atol=1e-14)
    for g in before:
        ctx.eq(f"{g}: untouched", d[g], before[g])
    d = core.add_titrant_totals(d, mt, ma, 0, titrant_molinity_prev=c, **kw)
    ctx.eq("removed again", d.get(k, 0.0), 0.0, atol=1e-12)


def pipeline(ctx, n, salt):
    """the contents a titration file is solved with"""
    import os

    from calkulate import files

    from props.common import scratch, write_dat

    d = scratch(ctx)
    tm = [2.55 + 0.2 * i for i in range(n)]
    write_dat(ctx, os.path.join(d, "a.dat"), [
        [ctx.real(f"v{i}", 0.1, 9, (v - 0.01, v + 0.01))
         for i, v in enumerate(tm)],
        [3.6 - 0.2 * i for i in range(n)], [25.0] * n])
    mol = ctx.real("mol", 0.01, 1, (0.099, 0.101))
    f = ctx.real("f", 0.1, 3, (0.9, 1.1))
    ma = ctx.real("ma", 0.05, 0.5, (0.099, 0.101))
    own = ctx.choice("own", [None, 50.0])
    opt = {} if own is None else {salt: own}
    kw = dict(solve_mode="pH", file_path=d, analyte_mass=ma,
              titrant_amount_unit="g", total_sulfide=2.0, dic=2000.0)
    s = files.solve("a.dat", mol, 35.0, **{"titrant_" + salt: f}, **opt, **kw)
    r = files.solve("a.dat", mol, 35.0, **opt, **kw)
    ctx.true("its content is there", salt in s.totals)
    for k in set(s.totals) | set(r.totals):
        base = r.totals.get(k, 0.0)
        if k == salt and own is not None:
            base = own * 1e-6 * ma / (ma + s.titrant_mass)
        add = s.titrant_mass * mol * f / (ma + s.titrant_mass)
        ctx.eq(k, s.totals[k], base + (add if k == salt else 0.0 * add))


def composition(ctx, n):
    """diluting in two steps equals diluting once by the sum"""
    ma = ctx.real("ma", 1e-6, 1e3, (0.05, 0.2))
    m1 = ctx.vec("m1", n, lo=0, hi=1e3, nice=(0, 5e-3))
    m2 = ctx.vec("m2", n, lo=0, hi=1e3, nice=(0, 5e-3))
    t = {"total_borate": ctx.real("b", 0, 1, (1e-4, 1e-3)),
         "dic": ctx.real("dic", 0, 1, (1e-3, 3e-3))}
    a = convert.dilute_totals(
        convert.dilute_totals(t, m1, ma), m2, ma + m1)
    b = convert.dilute_totals(t, m1 + m2, ma)
    for k in t:
        ctx.eq(f"{k}: two steps = one", a[k], b[k])


def harnesses(tier):
    n = 3 if tier == "quick" else 8
    b = f"n={n} titration points; masses 0..1000 kg, totals 0..1000 mol/kg"
    return [
        Harness("factor_array", factor, b, dict(n=n, scalar=False)),
        Harness("factor_scalar", factor, b, dict(n=1, scalar=True)),
        Harness("dilute_scalar_totals", dilute, b, dict(n=n, kind="scalar")),
        Harness("dilute_array_totals", dilute, b, dict(n=n, kind="array")),
        Harness("dilute_pyco2", dilute_py, b, dict(n=n, acid=False)),
        Harness("dilute_pyco2_H2SO4", dilute_py, b, dict(n=n, acid=True)),
        Harness("dilute_H2SO4", dilute_acid, b, dict(n=n)),
        Harness("add_titrant", add_titrant, b, dict(n=n)),
        Harness("titrant_only", absent, b, dict(n=n)),
        *[Harness("file_" + k, pipeline, "n=3 points, known pH, titrant "
                  "carries " + k, dict(n=3, salt=k))
          for k in ("total_sulfate", "total_phosphate", "total_fluoride")],
        Harness("composition", composition, b, dict(n=n)),
    ]
