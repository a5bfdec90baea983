"""EMF solver: least-squares alkalinity and EMF0."""

import numpy as np

from calkulate import core

from props.common import (ALK, F, GROUPS, MA, MOL, R, T0, TYPICAL, around,
                          check_min, h_emf, ideal_h, pick, reference_species,
                          rms, sorted_gran)
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "scipy.optimize.least_squares by contract: the minimiser, a function of "
    "the residuals alone (unique minimum)",
    "concrete replays compare with a tightly converged minimum: 1e-4 relative "
    "in alkalinity, 0.2 mV in EMF0",
]
E0 = 600.0
SETS = [
    ("total_borate", "total_fluoride", "total_sulfate"),
    (),
    ("dic", "total_borate", "total_phosphate", "total_silicate",
     "total_ammonia", "total_sulfide", "total_fluoride", "total_sulfate"),
    ("total_beta", "total_sulfate"),
    ("total_sulfate",),
]


def table(n, lo=2.5e-3, hi=3.3e-3):
    return [lo + (hi - lo) * i / max(1, n - 1) for i in range(n)]


def titration(ctx, n, sub, arrays=True, same_t=False, norm=1.0, wob=0.002,
              masses=None, hn=None, hmax=9.9):
    """symbolic EMF titration whose preferred replay values are realistic:
    h[i] is the hydrogen ion content at the (unknown) true EMF0"""
    tms = masses or table(n)
    typ = {k: TYPICAL[k] for k in sub}
    kt = {k: TYPICAL[k] for g in sub for k in GROUPS[g]}
    kt["k_water"] = TYPICAL["k_water"]
    tm = ctx.arr([ctx.real(f"tm[{i}]", lo=0, hi=0.05, nice=around(m, 1e-4))
                  for i, m in enumerate(tms)])
    hn = hn or [ideal_h(m, typ, kt, norm=norm) for m in tms]
    h = [ctx.real(f"h[{i}]", lo=1e-9, hi=hmax, nice=around(v, wob))
         for i, v in enumerate(hn)]
    tk = dict(lo=0, hi=50, nice=(24.999, 25.001))
    if same_t:
        t = ctx.real("t", **tk)
        temp = ctx.arr([t] * n)
    else:
        temp = ctx.vec("t", n, **tk)
    for i in range(n - 1):
        ctx.assume(tm[i + 1] >= tm[i] + 1e-5)
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 1e-4))
    mol = ctx.real("mol", lo=0.01, hi=1, nice=around(MOL, 1e-4))
    e0 = ctx.real("e0", lo=-1000, hi=1000, nice=(590, 610))
    log = (lambda v: v.log()) if ctx.sym else np.log
    emf = ctx.arr([e0 + log(h[i]) * R * (temp[i] + T0) / F
                   for i in range(n)])
    tot, ks = {}, {}
    for g in sub:
        v = ctx.real(g, lo=1e-9, hi=0.1, nice=around(typ[g], 0.02))
        # through a titration: diluted, one value per point
        tot[g] = ctx.arr([v * ma / (ma + tm[i]) for i in range(n)])
        for k in GROUPS[g]:
            kw = dict(lo=1e-16, hi=10, nice=around(kt[k], 0.02))
            if k in ("k_alpha", "k_beta"):
                kw["lo"] = 3.3e-5
            ks[k] = ctx.arr([ctx.real(f"{k}[{i}]", **kw) for i in range(n)]
                            ) if arrays else ctx.real(k, **kw)
    ks["k_water"] = ctx.real("k_water", lo=1e-16, hi=1e-10,
                             nice=around(kt["k_water"], 0.02))
    return dict(tm=tm, h=h, temp=temp, ma=ma, mol=mol, e0=e0, emf=emf,
                tot=tot, ks=ks, n=n)


def residuals(w, norm, used):
    """reference objective at (alkalinity in mol/kg, EMF0)"""
    def f(x):
        out = []
        for i in used:
            hh = h_emf(w["emf"][i], x[1], w["temp"][i])
            _, a = reference_species(hh, pick(w["tot"], i), pick(w["ks"], i))
            mix = w["tm"][i] + w["ma"]
            out.append(a - x[0] * w["ma"] / mix
                       + w["tm"][i] * w["mol"] * norm / mix)
        return out if not out or not isinstance(out[0], float) \
            else np.array(out)
    return f


def check(ctx, w, sr, norm, used, std=True, **k):
    n = w["n"]
    f = residuals(w, norm, used)
    A, e = sr.alkalinity * 1e-6, sr.emf0
    check_min(ctx, "minimum", f, sr.alkalinity, e,
              start=[k.pop("alk", ALK), w["e0"]], **k)
    for i in range(n):
        ctx.true(f"used {i}", bool(sr.used[i]) == (i in used))
        hh = h_emf(w["emf"][i], e, w["temp"][i])
        ctx.eq(f"pH {i}", 10.0 ** (-sr.pH[i]) / hh, 1.0)
        _, a = reference_species(hh, pick(w["tot"], i), pick(w["ks"], i))
        mix = w["tm"][i] + w["ma"]
        ctx.eq(f"alkalinity_all {i}", sr.alkalinity_all[i] * w["ma"] / mix,
               1e6 * (a + w["tm"][i] * w["mol"] * norm / mix))
    r = [1e6 * v for v in f([A, e])]
    if std:
        ctx.eq("alkalinity_std", sr.alkalinity_std, rms(r), rtol=1e-4,
               atol=1e-6)
    for k, v in (("titrant_mass", w["tm"]), ("emf", w["emf"]),
                 ("temperature", w["temp"])):
        ctx.eq("returned " + k, getattr(sr, k), v)
    ctx.eq("returned analyte mass", sr.analyte_mass, w["ma"])
    ctx.eq("returned molinity", sr.titrant_molinity, w["mol"])


def objective(ctx, n, sets, norms, double, arrays=True, same_t=False):
    """all points used: EMF0 and alkalinity minimise the residuals"""
    sub = ctx.choice("totals", sets)
    nm = ctx.choice("normality", norms)
    norm = 1
    kw = {}
    if nm == 2:
        norm = kw["titrant_normality"] = 2
    elif nm == "free":
        norm = kw["titrant_normality"] = ctx.real(
            "norm", lo=0.1, hi=3, nice=(0.999, 1.001))
    w = titration(ctx, n, sub, arrays, same_t)
    sorted_gran(ctx, w)  # only a starting value here
    if ctx.flag("alkalinity_init"):
        kw["alkalinity_init"] = ctx.real("alk_init", lo=-1000, hi=1e4,
                                         nice=(2250, 2350))
    # every point inside the window for the given EMF0
    kw["emf0_init"] = w["e0"]
    ctx.lr_min = 0.95  # the poor-correlation warning is C13's business
    if double:
        # all points stay in the window of the second pass
        def inside(x):
            for i in range(n):
                hh = h_emf(w["emf"][i], x[1], w["temp"][i])
                ctx.assume(-np.log10(hh) >= -1)
                ctx.assume(-np.log10(hh) <= 12)
        ctx.on_lsq = inside
    sr = core.solve_emf(w["mol"], w["tm"], w["emf"], w["temp"], w["ma"],
                        w["tot"], w["ks"], pH_min=-1, pH_max=12,
                        double=double, **kw)
    check(ctx, w, sr, norm, list(range(n)), std=len(sub) < 2)


def outlier(ctx, n, off):
    """one point away from the curve of the others: all have the same weight"""
    sub = SETS[4] if len(SETS[4]) == 1 else ("total_sulfate",)
    j = ctx.choice("point", list(range(n)))
    kt = {k: TYPICAL[k] for g in sub for k in GROUPS[g]}
    kt["k_water"] = TYPICAL["k_water"]
    hn = [ideal_h(m, {k: TYPICAL[k] for k in sub}, kt) for m in table(n)]
    hn[j] *= off
    w = titration(ctx, n, sub, arrays=False, same_t=True, hn=hn)
    sorted_gran(ctx, w)
    ctx.lr_min = 0.95
    sr = core.solve_emf(w["mol"], w["tm"], w["emf"], w["temp"], w["ma"],
                        w["tot"], w["ks"], pH_min=-1, pH_max=12,
                        emf0_init=w["e0"], double=False)
    check(ctx, w, sr, 1, list(range(n)), noise=1e-4, slack=5e-8)


def extreme(ctx, n, alks):
    """samples far from ordinary seawater: acidified (negative alkalinity),
    brine"""
    alk = ctx.choice("alkalinity", alks)
    masses = table(n, max(0, alk) + 3e-4, max(0, alk) + 1.1e-3)
    kt = {"k_water": TYPICAL["k_water"]}
    hn = [ideal_h(m, {}, kt, alk=alk) for m in masses]
    w = titration(ctx, n, (), arrays=False, same_t=True, masses=masses,
                  hn=hn, wob=1e-4)
    sorted_gran(ctx, w)
    ctx.lr_min = 0.95
    sr = core.solve_emf(w["mol"], w["tm"], w["emf"], w["temp"], w["ma"],
                        w["tot"], w["ks"], pH_min=-1, pH_max=12,
                        emf0_init=w["e0"], double=False)
    check(ctx, w, sr, 1, list(range(n)), alk=alk, alks=(-1, 1), alk_tol=1e-3)


def converges(ctx, n, e0s):
    """exact data: the true alkalinity and EMF0 make every residual vanish,
    and SciPy, as called, gets there (judged at the witness of each path)"""
    how = ctx.choice("start", ["gran", "zero", "near", "double"])
    dn = ctx.choice("offset", e0s)
    alk = ctx.real("alk", lo=5e-4, hi=5e-3, nice=around(ALK, 1e-4))
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 1e-4))
    mol = ctx.real("mol", lo=0.01, hi=1, nice=around(MOL, 1e-4))
    base = 0.0 if how in ("zero", "double") else 600.0
    e0 = ctx.real("e0", lo=-1000, hi=1000,
                  nice=(base + dn - 0.01, base + dn + 0.01))
    names = ("k_bisulfate", "k_water")
    kt = {k: TYPICAL[k] for k in names}
    ks = {k: ctx.real(k, lo=1e-16, hi=10, nice=around(kt[k], 1e-4))
          for k in names}
    t = ctx.real("t", lo=0, hi=50, nice=(24.9, 25.1))
    tm, emf, sulfate = [], [], []
    for i, m in enumerate(table(n)):
        hn = ideal_h(m, {"total_sulfate": TYPICAL["total_sulfate"]}, kt)
        h = ctx.real(f"h[{i}]", lo=1e-9, hi=9.9, nice=around(hn, 1e-4))
        x = ctx.real(f"tm[{i}]", lo=1e-6, hi=0.05, nice=around(m, 1e-5))
        # the sulfate that makes alk * ma = a * (ma + tm) + mol * tm
        a = (alk * ma - mol * x) / (ma + x)
        so4 = (ks["k_water"] / h - h - a) * (1 + ks["k_bisulfate"] / h)
        ctx.assume(so4 >= 1e-3)
        log = h.log() if ctx.sym else np.log(h)
        tm.append(x)
        sulfate.append(so4)
        emf.append(e0 + log * R * (t + T0) / F)
    w = dict(tm=ctx.arr(tm), emf=ctx.arr(emf), temp=ctx.arr([t] * n), ma=ma,
             mol=mol, tot={"total_sulfate": ctx.arr(sulfate)}, ks=ks, n=n)
    for i in range(n - 1):
        ctx.assume(tm[i + 1] >= tm[i] + 1e-5)
    ctx.lr_min = 0.95
    kw = dict(pH_min=-9, pH_max=20, double=how == "double")
    if how == "near":
        kw["emf0_init"] = 600.0
    elif how != "gran":
        kw["emf0_init"] = 0
    sorted_gran(ctx, w)
    f = residuals(w, 1, range(n))([alk, e0])
    for i in range(n):
        ctx.eq(f"residual {i} at the true values", f[i], 0.0, atol=1e-9)
    if ctx.sym and how == "gran":
        return  # this start only matters to the replay

    def window(x):
        for i in range(n):
            p = -np.log10(h_emf(w["emf"][i], x[1], t))
            ctx.assume(p <= 20)
            ctx.assume(p >= -9)

    if ctx.sym:
        window([None, kw["emf0_init"]])
        ctx.on_lsq = window
    sr = core.solve_emf(mol, w["tm"], w["emf"], w["temp"], ma, w["tot"], ks,
                        **kw)
    if ctx.sym:
        for j, call in enumerate(ctx.lsq_calls):
            f = np.ravel(call.residual([alk, e0]))
            for i in range(n):
                ctx.eq(f"pass {j}: residual {i} at the true values", f[i],
                       0.0, trace=False)
    if not ctx.sym:
        ctx.eq("alkalinity", sr.alkalinity, alk * 1e6, atol=0.05)
        ctx.eq("EMF0", sr.emf0, e0, atol=0.01)


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 4
    norms = [1, "free"]
    lim = dict(time_limit=300 if q else 1500, trace_rtol=1e-3,
               trace_nice=True)
    out = [
        Harness("single_" + ("_".join(k[-4:] for k in s) or "none")[:24],
                objective, f"{n} points, totals {list(s)}, any start",
                dict(n=n, sets=[s], norms=norms, double=False), **lim)
        for s in SETS]
    out += [
        Harness("single_same_t", objective, f"{n} points at one temperature, "
                "scalar constants", dict(n=n, sets=SETS[:1], norms=[1],
                                         double=False, arrays=False,
                                         same_t=True), **lim),
        Harness("double", objective, f"{n} points, two passes, all points in "
                "the window", dict(n=n, sets=[SETS[4]], norms=["free"],
                                   double=True), **lim),
    ]
    out.append(Harness("outlier", outlier, "4 points, one of them up to 8 % "
                       "of [H+] off", dict(n=4, off=1.08), strict=True,
                       **lim))
    out.append(Harness("extreme", extreme, "3 points; true alkalinity -60, "
                       "100 and 12000 umol/kg", dict(
                           n=3, alks=[-60e-6, 1e-4, 0.012]), strict=True,
                       **lim))
    out.append(Harness(
        "converges", converges, "3 exact points; starts from Gran, from zero "
        "and nearby", dict(n=3, e0s=[0.5, -3.0, 6.0, -20.0]), strict=True,
        **lim))
    return out
