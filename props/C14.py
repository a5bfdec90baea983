"""Calibration: the molinity found reproduces the certified alkalinity."""

import numpy as np
import scipy.optimize

from calkulate import core

from props.C10 import titration
from props.common import (GROUPS, MA, TYPICAL, around, h_emf, ideal_h,
                          sorted_gran)
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "scipy.optimize.least_squares on one residual by contract: a root of the "
    "residual; the check is that the residual as a function of the molinity "
    "is the solved minus the certified alkalinity",
    "concrete replays: the calibration is repeated and the titration solved "
    "with its result",
]


EDGE = (3.022, 3.028)


def carried(ctx, tt):
    """titrant_total_* keyword arguments with symbolic factors"""
    return {k: ctx.real("f_" + k, lo=0.1, hi=2, nice=(0.95, 1.05)) for k in tt}


def with_titrant(totals, tm, ma, m, kw):
    out = {k: v.copy() for k, v in totals.items()}
    for k, f in kw.items():
        t = k[len("titrant_"):]
        out[t] = out[t] + tm * m * f / (tm + ma)
    return out


def judge(ctx, cal, certified, solve):
    """concrete: solve with the calibrated molinity"""
    m = float(cal.x[0])
    a = solve(m).alkalinity
    off = abs(a - certified)
    allow = 0.02 if ctx.nice_env() else 0.02 + 1.01 * abs(float(
        np.ravel(cal.fun)[0]))
    ctx.true("reproduces certified", bool(off <= allow) or a != a,
             f"molinity {m!r} gives {a!r}, certified {certified!r}")


def root_hook(ctx, m, log):
    """the contract for one residual and one unknown: some root"""
    def hook(call):
        r = call.residual([m])
        log.append(np.ravel(np.asarray(r, dtype=object)))
        return scipy.optimize.OptimizeResult(
            x=ctx.arr([m]), fun=log[-1], success=True, status=1)
    ctx.lsq_root = hook


def emf(ctx, n, sub, opts, tt=(), norm="one", legacy=False, edge=None):
    """calibrate_emf"""
    kw = dict(opts)
    nice_norm = 1.0
    norm_v = 1
    if norm == "free":
        norm_v = kw["titrant_normality"] = ctx.real(
            "norm", lo=0.5, hi=3, nice=(1.99, 2.01))
        nice_norm = 2.0
    lo, hi = {None: (2.5e-3, 3.1e-3), "high": (2.5e-3, 3.7e-3),
              "low": (2.345e-3, 2.6e-3)}[edge]
    lo, hi = lo / nice_norm, hi / nice_norm
    tms = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    typ = {k: TYPICAL[k] for k in sub}
    kt = {k: TYPICAL[k] for g in sub for k in GROUPS[g]}
    kt["k_water"] = TYPICAL["k_water"]
    hs = []
    for x in tms:
        t2 = dict(typ)
        for k in tt:
            # ideal_h dilutes the totals: undo that for what titrant carries
            t2[k[8:]] = t2[k[8:]] + x * 0.1 / MA
        hs.append(ideal_h(x, t2, kt, norm=nice_norm))
    w = titration(ctx, n, sub, arrays=False, same_t=True, masses=tms, hn=hs,
                  wob=1e-4)
    certified = ctx.real("certified", lo=500, hi=5000, nice=(2299.5, 2300.5))
    init = ctx.flag("own_guess")
    ckw = dict(kw)
    if init:
        ckw["titrant_molinity_init"] = ctx.real("m0", lo=0.05, hi=0.5,
                                                nice=(0.08, 0.12))
    tkw = carried(ctx, tt)
    if "emf0_init" in kw:
        kw["emf0_init"] = ckw["emf0_init"] = w["e0"]
    if edge is None:
        sorted_gran(ctx, w, legacy)
    else:
        for i in range(n):
            bounds = (10.0**-5, 10.0**-2.5)
            if edge == "low" and i == 0:
                bounds = (10.0**-5, 0.999e-4)
            if edge == "high" and i == n - 1:
                bounds = (1.001e-3, 10.0**-2.5)
            ctx.assume(w["h"][i] > bounds[0] * 1.001)
            ctx.assume(w["h"][i] < bounds[1] * 0.999)
        sorted_gran(ctx, w)
    ctx.lr_min = 0.95
    pmin, pmax = kw.get("pH_min", 3), kw.get("pH_max", 4)
    args = (w["tm"], w["emf"], w["temp"], w["ma"])
    before = {k: v.copy() for k, v in w["tot"].items()}
    log = []
    m = w["mol"]  # stands for the root
    if ctx.sym:
        root_hook(ctx, m, log)

        def window(e0):
            for i in range(n):
                p = -np.log10(h_emf(w["emf"][i], e0, w["temp"][i]))
                ctx.assume(p >= pmin)
                ctx.assume(p <= pmax)
        if kw.get("double", True):
            ctx.on_lsq = lambda x: window(x[1])
        if "emf0_init" not in kw:
            gk = {k: v for k, v in kw.items() if k in (
                "gran_logic", "titrant_normality")}
            window(core.gran_guesses(*args, m, **gk).emf0)
        elif edge is None:
            window(w["e0"])
    cal = core.calibrate_emf(certified, *args, w["tot"], w["ks"], **ckw, **tkw)

    def solve(x):
        tot = with_titrant(before, w["tm"], w["ma"], x, tkw)
        return core.solve_emf(x, *args, tot, w["ks"], **kw)

    if ctx.sym:
        ctx.eq("residual", log[0][0], solve(m).alkalinity - certified,
               trace=False)
    else:
        judge(ctx, cal, certified, solve)
    ctx.true("same totals", set(before) == set(w["tot"]))
    for k, v in before.items():
        ctx.eq("restored " + k, w["tot"][k], v, trace=False)


def gran_edge(ctx, rule):
    """calibrate_emf, one pass, with the lower pH limit between what the two
    Gran selections make of the last point"""
    n = 5
    tms = [2.45e-3 + 0.2e-3 * i for i in range(n)]
    kt = {"k_water": TYPICAL["k_water"]}
    hs = [ideal_h(x, {}, kt) * f for x, f in zip(
        tms, (1, 1, 1, 1, 1.06))]
    w = titration(ctx, n, (), arrays=False, same_t=True, masses=tms, hn=hs,
                  wob=1e-4)
    certified = ctx.real("certified", lo=500, hi=5000, nice=(2299.5, 2300.5))
    args = (w["tm"], w["emf"], w["temp"], w["ma"])
    gs = sorted_gran(ctx, w, legacy=True)
    ctx.lr_min = 0.95
    m = w["mol"]
    ps = {}
    for r in ("v23.7+", "legacy"):
        e0 = core.gran_guesses(*args, m, gran_logic=r).emf0
        ps[r] = [-np.log10(h_emf(w["emf"][i], e0, w["temp"][i]))
                 for i in range(n)]
    # the two estimates of the last point, and the limit between them
    pmin = ctx.real("pH_min", lo=0, hi=3.5, nice=EDGE)
    inside = "v23.7+"
    out = "legacy"
    ctx.assume(ps[inside][-1] > pmin + 1e-5)
    ctx.assume(ps[out][-1] < pmin - 1e-5)
    for r in ps:
        for i in range(n):
            if i < n - 1:
                ctx.assume(ps[r][i] >= pmin)
            ctx.assume(ps[r][i] <= 5)
    kw = dict(double=False, gran_logic=rule, pH_min=pmin, pH_max=5)
    log = []
    if ctx.sym:
        root_hook(ctx, m, log)
    cal = core.calibrate_emf(certified, *args, w["tot"], w["ks"], **kw)

    def solve(x):
        return core.solve_emf(x, *args, w["tot"], w["ks"], **kw)

    if ctx.sym:
        ctx.eq("residual", log[0][0], solve(m).alkalinity - certified,
               trace=False)
    else:
        judge(ctx, cal, certified, solve)


def ph(ctx, n, sub, solver, tt=(), win=None):
    """calibrate_pH and calibrate_pH_gran: exact"""
    kw = {}
    norm = 1
    nn = 1.0
    if ctx.flag("normality"):
        norm = kw["titrant_normality"] = ctx.real(
            "norm", lo=0.5, hi=3, nice=(1.98, 2.02))
        nn = 2.0
    tms = [(2.5e-3 + 2.5e-4 * i) / nn for i in range(n)]
    typ = {k: TYPICAL[k] for k in sub}
    kt = {k: TYPICAL[k] for g in sub for k in GROUPS[g]}
    kt["k_water"] = TYPICAL["k_water"]
    tm = ctx.arr([ctx.real(f"tm[{i}]", lo=1e-6, hi=0.05, nice=around(x, 1e-4))
                  for i, x in enumerate(tms)])
    for i in range(n - 1):
        ctx.assume(tm[i + 1] >= tm[i] + 1e-5)
    h = [ctx.real(f"h[{i}]", lo=1e-9, hi=1,
                  nice=around(ideal_h(x, typ, kt, norm=nn), 0.01))
         for i, x in enumerate(tms)]
    pH = ctx.arr([-np.log10(v) if not ctx.sym else -(v.log10()) for v in h])
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 1e-4))
    temp = np.full(n, 25.0)
    tot, ks = {}, {}
    for g in sub:
        v = ctx.real(g, lo=1e-9, hi=0.1, nice=around(typ[g], 0.02))
        tot[g] = ctx.arr([v * ma / (ma + tm[i]) for i in range(n)])
        for k in GROUPS[g]:
            ks[k] = ctx.real(k, lo=1e-16, hi=10, nice=around(kt[k], 0.02))
    ks["k_water"] = ctx.real("k_water", lo=1e-16, hi=1e-10,
                             nice=around(kt["k_water"], 0.02))
    certified = ctx.real("certified", lo=500, hi=5000, nice=(2290, 2310))
    lo, hi = 3, 4
    if win:
        lo, hi = win
        kw.update(pH_min=lo, pH_max=hi)
    out = ctx.choice("outside", [None, 0, n - 1])
    for i in range(n):
        if i == out:
            ctx.assume(h[i] < 10.0**-hi * 0.999 if i == 0
                       else h[i] > 10.0**-lo * 1.001)
        else:
            ctx.assume(h[i] < 10.0**-lo * 0.999)
            ctx.assume(h[i] > 10.0**-hi * 1.001)
    ckw = dict(kw)
    if ctx.flag("own_guess"):
        ckw["titrant_molinity_init"] = ctx.real("m0", lo=0.05, hi=0.5,
                                                nice=(0.08, 0.12))
    tkw = carried(ctx, tt)
    before = {k: v.copy() for k, v in tot.items()}
    args = (tm, pH, temp, ma)
    log = []
    m = ctx.real("mol", lo=0.01, hi=1, nice=(0.09, 0.11))
    if ctx.sym:
        root_hook(ctx, m, log)
    cal = getattr(core, "calibrate_" + solver)(certified, *args, tot, ks,
                                               **ckw, **tkw)

    def solve(x):
        t2 = with_titrant(before, tm, ma, x, tkw)
        return getattr(core, "solve_" + solver)(x, *args, t2, ks, **kw)

    if ctx.sym:
        ctx.eq("residual", log[0][0], solve(m).alkalinity - certified,
               trace=False)
    else:
        judge(ctx, cal, certified, solve)
    ctx.true("same totals", set(before) == set(tot))
    for k, v in before.items():
        ctx.eq("restored " + k, tot[k], v, trace=False)


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 4
    lim = dict(time_limit=240 if q else 1500, trace_nice=True)
    H = Harness
    S4 = ("total_sulfate",)
    e0 = {"emf0_init": 1}
    out = [
        H("emf_default", emf, f"{n} points, default options",
          dict(n=n, sub=(), opts={}), **lim),
        H("emf_single", emf, f"{n} points, one pass",
          dict(n=n, sub=(), opts={"double": False}), **lim),
        H("emf_legacy", emf, f"{n} points, one pass, legacy Gran rule",
          dict(n=n, sub=(), opts={"double": False, "gran_logic": "legacy"},
               legacy=True), **lim),
        H("emf_window_low", emf, f"{n} points, one pass, EMF0 given, window "
          "2.5..5, first point above 4",
          dict(n=n, sub=(), opts={"double": False, "pH_min": 2.5, "pH_max": 5,
                                  **e0}, edge="low"), **lim),
        H("emf_window_high", emf, f"{n} points, one pass, EMF0 given, window "
          "2.5..5, last point below 3",
          dict(n=n, sub=(), opts={"double": False, "pH_min": 2.5, "pH_max": 5,
                                  **e0}, edge="high"), **lim),
        H("emf_normality", emf, f"{n} points, EMF0 given",
          dict(n=n, sub=(), opts=e0, norm="free"), **lim),
        H("emf_sulfuric", emf, f"{n} points, titrant carries sulfate",
          dict(n=n, sub=S4, opts=e0, norm="free",
               tt=("titrant_total_sulfate",)), **lim),
        H("emf_two_salts", emf, f"{n} points, titrant carries sulfate and "
          "fluoride", dict(n=n, sub=("total_sulfate", "total_fluoride"),
                           opts={"double": False, **e0},
                           tt=("titrant_total_sulfate",
                               "titrant_total_fluoride")), **lim),
    ]
    out += [H("emf_gran_edge_" + r[0], gran_edge, "5 points, one pass, pH "
              f"limit between the two Gran estimates, rule {r}",
              dict(rule=r), **lim) for r in ("v23.7+", "legacy")]
    for solver in ("pH", "pH_gran"):
        out += [
            H(f"{solver}_plain", ph, f"{n} points, default window",
              dict(n=n, sub=S4, solver=solver), **lim),
            H(f"{solver}_window", ph, f"{n} points, window 2.5..5",
              dict(n=n, sub=(), solver=solver, win=(2.5, 5)), **lim),
            H(f"{solver}_salts", ph, f"{n} points, titrant carries sulfate "
              "and phosphate",
              dict(n=n, sub=("total_sulfate", "total_phosphate"),
                   solver=solver, tt=("titrant_total_sulfate",
                                      "titrant_total_phosphate")), **lim),
        ]
    return out
