"""Simulated titrations: the numbers follow from the inputs."""

import numpy as np

from calkulate import simulate

from props.common import (TYPICAL, around, h_emf, pick, reference_species)
from symx import shims
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS.sys by contract: results are uninterpreted functions of the "
    "arguments each depends on; totals given are returned unchanged",
    "concrete replays also check that the returned totals and constants "
    "balance the alkalinity at the pH of the returned EMF and the given EMF0 "
    "(PyCO2SYS solves pH to 1e-8)",
]
KS = ("k_water", "k_carbonic_1", "k_carbonic_2", "k_borate", "k_bisulfate",
      "k_fluoride", "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3",
      "k_silicate", "k_ammonia", "k_sulfide")
USER = ("total_alpha", "k_alpha", "total_beta", "k_beta")
TOTS = ("total_borate", "total_fluoride", "total_sulfate", "total_phosphate",
        "total_silicate", "total_ammonia", "total_sulfide", "total_calcium", "total_alpha",
        "total_beta")
GIVEN = ("total_phosphate", "total_silicate", "total_ammonia",
         "total_sulfide")


def co2sys(ctx, **k):
    if ctx.sym:
        return shims.pyco2_sys(**k)
    return shims.real_sys(**k)


DEFAULT_OPTS = dict(opt_gas_constant=3, opt_k_bisulfate=1, opt_k_carbonic=10,
                    opt_k_fluoride=1, opt_total_borate=1)


def sim(ctx, n, loss=False, given=(), opts=None, defaults=False, temps=False):
    fn = simulate._titration
    kw = dict(opts or {})
    start = ctx.real("start", lo=0, hi=0.01, nice=(0.9e-3, 1.1e-3))
    step = ctx.real("step", lo=1e-5, hi=1e-3, nice=(0.4e-3, 0.5e-3))
    frac = ctx.real("frac", lo=0.01, hi=0.99, nice=(0.2, 0.8))
    alk = ctx.real("alkalinity", lo=100, hi=5000, nice=(2250, 2350))
    args = dict(titrant_mass_start=start, titrant_mass_step=step,
                titrant_mass_stop=start + step * (n - 1 + frac))
    ma, dic, e0, sal, t, mol, air = 0.1, 0, 600, 35, 25, 0.1, None
    if not defaults:
        ma = args["analyte_mass"] = ctx.real(
            "ma", lo=0.01, hi=1, nice=(0.09, 0.11))
        dic = args["dic"] = ctx.real("dic", lo=1, hi=4000, nice=(1900, 2100))
        e0 = args["emf0"] = ctx.real("e0", lo=-1000, hi=1000, nice=(590, 610))
        sal = args["salinity"] = ctx.real("sal", lo=1, hi=45, nice=(33, 36))
        mol = args["titrant_molinity"] = ctx.real(
            "mol", lo=0.01, hi=1, nice=(0.09, 0.11))
        if temps:
            t = args["temperature"] = ctx.vec("t", n, lo=1, hi=40,
                                              nice=(15, 30))
        else:
            t = args["temperature"] = ctx.real("t", lo=1, hi=40,
                                               nice=(15, 30))
    k = None
    if loss:
        k = args["k_dic_loss"] = ctx.real("k", lo=0, hi=1000, nice=(5, 20))
        air = 450
        if not defaults:
            air = args["fCO2_air"] = ctx.real("air", lo=100, hi=1000,
                                              nice=(400, 500))
    for g in given:
        if g.startswith("k_"):
            kw[g] = ctx.real(g, lo=1e-9, hi=1e-2, nice=around(TYPICAL[g], 0.1))
        else:
            kw[g] = ctx.real(g, lo=0.01, hi=500, nice=around(
                1e6 * TYPICAL[g], 0.3))
    tm, emf, temp, ma2, tot, ks = fn(alk, **args, **kw)
    # --- reference
    ctx.true("points", len(tm) == n)
    if len(tm) != n:
        return
    ts = [t[i] if temps else t for i in range(n)]
    base = dict(salinity=sal, opt_pH_scale=3, **DEFAULT_OPTS)
    base.update({k_: v for k_, v in kw.items()})
    d = dic
    for i in range(n):
        m = start + i * step
        f = ma / (ma + m)
        ctx.eq(f"mass {i}", tm[i], m)
        ctx.eq(f"temperature {i}", temp[i], ts[i])
        und = co2sys(ctx, temperature=ts[i], **base)
        tots = {x: und[x] * f for x in TOTS}
        a = (ma * alk - 1e6 * m * mol) / (ma + m)
        par = dict(base, temperature=ts[i], **tots)
        if not loss:
            d = dic * f
        elif i == 0:
            d = dic * f
        ref = co2sys(ctx, par1=a, par2=d, par1_type=1, par2_type=2, **par)
        h = 10.0 ** (-ref["pH_free"])
        ctx.eq(f"EMF {i}", h_emf(emf[i], e0, ts[i]) / h, 1.0, rtol=1e-6)
        for x in TOTS:
            ctx.eq(f"{x} {i}", tot[x][i], tots[x] * 1e-6, atol=1e-18)
        ctx.eq(f"dic {i}", tot["dic"][i], d * 1e-6, rtol=1e-6, atol=1e-18)
        for x in KS:
            ctx.eq(f"{x} {i}", ks[x][i], ref[x], rtol=1e-6)
        if not ctx.sym:
            # the balance every solver relies on
            hh = h_emf(float(emf[i]), float(e0), float(ts[i]))
            _, b = reference_species(
                hh, {x: v for x, v in pick(tot, i).items() if v > 0},
                pick(ks, i))
            if abs(b * 1e6 - a) > 1e-3:
                ctx._bad(f"balance {i}", f"{b * 1e6!r} expected {a!r}")
        if loss:
            fco2 = ref["fCO2"]
            d = d * (ma + m) / (ma + m + step) - k * (fco2 - air) * step
    ctx.eq("analyte mass", ma2, ma)


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 5
    H = Harness
    lim = dict(time_limit=200 if q else 1500)
    return [
        H("defaults", sim, "2 points, default arguments",
          dict(n=2, defaults=True), **lim),
        H("dilution", sim, f"{n} points, everything given",
          dict(n=n, given=GIVEN), **lim),
        H("temperatures", sim, f"{n} points, one temperature each",
          dict(n=n, temps=True), **lim),
        H("options", sim, f"{n} points, other PyCO2SYS options",
          dict(n=n, opts=dict(opt_k_carbonic=4, opt_k_bisulfate=2,
                              opt_k_fluoride=2, opt_total_borate=2)), **lim),
        H("user_defined", sim, f"{n} points, two user-defined acid systems",
          dict(n=n, given=USER), **lim),
        H("loss", sim, f"{n} points, DIC loss", dict(n=n, loss=True), **lim),
        H("loss_temperatures", sim, f"{n} points, DIC loss, one temperature "
          "each, nutrients", dict(n=n, loss=True, temps=True, given=GIVEN),
          **lim),
        H("loss_defaults", sim, "2 points, DIC loss, default arguments",
          dict(n=2, loss=True, defaults=True), **lim),
        H("loss_long", sim, "6 points, DIC loss", dict(n=6, loss=True), **lim),
    ]
