"""pH window: inclusive, from the right pH estimate, in both passes."""

import numpy as np

from calkulate import core

from props.C10 import residuals, titration
from props.common import ALK, MA, around, check_min, h_emf, sorted_gran
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754; concrete replays skip points whose "
    "pH estimate is within 1e-9 of a limit unless it is exact",
    "scipy.optimize.least_squares by contract (see C10)",
    "Gran function increasing along the titration, above 10 % of its largest "
    "value and with r of at least 0.95 (other shapes: C13)",
]
WINDOWS = [None, (0, 0.7), (-0.7, 0), (3.2, 3.9)]
WIDE = (2.42e-3, 3.05e-3)  # titrant masses for pH about 4 to 3


def ph_of(emf, e0, t):
    """pH estimate (Nernst)"""
    return -np.log10(h_emf(emf, e0, t))


def setup(ctx, n, sub, legacy=False, hn=None):
    lo, hi = WIDE
    w = titration(ctx, n, sub, arrays=False, same_t=True, hn=hn, hmax=20,
                  masses=[lo + (hi - lo) * i / (n - 1) for i in range(n)])
    sorted_gran(ctx, w, legacy)
    w["t"] = w["temp"][0]
    ctx.lr_min = 0.95
    return w


def mask(ctx, ps, lo, hi, exact=()):
    """points inside the inclusive window; exact: points for which the code's
    own estimate is free of rounding"""
    out = []
    for i, p in enumerate(ps):
        if not ctx.sym and i not in exact:
            if abs(p - lo) < 1e-9 or abs(p - hi) < 1e-9:
                ctx.assume(False)
        out.append(bool(p >= lo) and bool(p <= hi))
    if sum(out) < 2:
        ctx.assume(False)
    return out


def given_emf0(ctx, n, window):
    """single pass from a given EMF0"""
    hn = None
    if window and window[0] <= 0:
        m = sum(window) / 2
        hn = [10.0 ** -(m + d) for d in (0.2, 0.0, -0.2, -0.3)[:n]]
    w = setup(ctx, n, (), hn=hn)
    kw = dict(alkalinity_init=ctx.real("a0", lo=0, hi=1e4, nice=(2290, 2310)),
              emf0_init=w["e0"], double=False)
    lo, hi = window or (3, 4)
    if window:
        kw.update(pH_min=lo, pH_max=hi)
    est = [ph_of(w["emf"][i], w["e0"], w["t"]) for i in range(n)]
    used = mask(ctx, est, lo, hi, () if ctx.sym else [
        i for i in range(n) if w["emf"][i] == w["e0"]])
    sr = core.solve_emf(w["mol"], w["tm"], w["emf"], w["temp"], w["ma"],
                        w["tot"], w["ks"], **kw)
    for i in range(n):
        ctx.true(f"used {i}", bool(sr.used[i]) == used[i],
                 f"point {i}: pH estimate {est[i]!r}, window {lo}..{hi}, "
                 f"used {sr.used[i]!r}")
    # only the points in the window enter the objective
    idx = [i for i in range(n) if used[i]]
    check_min(ctx, "window", residuals(w, 1, idx), sr.alkalinity, sr.emf0,
              start=[ALK, w["e0"]])


def unused_point(ctx, n):
    """moving a point that is outside the window changes nothing"""
    w = setup(ctx, n, ("total_sulfate",))
    est = [ph_of(w["emf"][i], w["e0"], w["t"]) for i in range(n)]
    which = ctx.choice("outside", [0, n - 1])
    lo, hi = (3, 4)
    for i in range(n):
        if i == which:
            ctx.assume(est[i] > hi + 1e-6 if i == 0 else est[i] < lo - 1e-6)
        else:
            ctx.assume(est[i] > lo + 1e-6)
            ctx.assume(est[i] < hi - 1e-6)
    kw = dict(alkalinity_init=2300.0, emf0_init=w["e0"], double=False)
    a = core.solve_emf(w["mol"], w["tm"], w["emf"], w["temp"], w["ma"],
                       w["tot"], w["ks"], **kw)
    # the amount of titrant, the totals and the constants at that point
    tm2 = w["tm"].copy()
    d = ctx.real("dm", lo=0, hi=5e-6, nice=(1e-6, 5e-6))
    tm2[which] = tm2[which] + (-d if which == 0 else d)
    tot2 = {k: v.copy() for k, v in w["tot"].items()}
    for v in tot2.values():
        v[which] = v[which] + ctx.real("dt", lo=0, hi=0.01, nice=(1e-4, 1e-3))
    sorted_gran(ctx, dict(w, tm=tm2))
    b = core.solve_emf(w["mol"], tm2, w["emf"], w["temp"], w["ma"], tot2,
                       w["ks"], **kw)
    ctx.eq("alkalinity unchanged", b.alkalinity, a.alkalinity)
    ctx.eq("EMF0 unchanged", b.emf0, a.emf0)
    ctx.eq("spread unchanged", b.alkalinity_std, a.alkalinity_std, rtol=1e-5,
           atol=1e-9)


def gran_emf0(ctx, n, logic):
    """no EMF0 given: window from the Gran estimate"""
    w = setup(ctx, n, (), legacy=logic == "legacy")
    kw = {} if logic is None else {"gran_logic": logic}
    g = core.gran_guesses(w["tm"], w["emf"], w["temp"], w["ma"], w["mol"],
                          **kw)
    if not ctx.sym:
        ctx.assume(bool(np.isfinite(g.emf0)))
    est = [ph_of(w["emf"][i], g.emf0, w["t"]) for i in range(n)]
    used = mask(ctx, est, 3, 4)
    sr = core.solve_emf(w["mol"], w["tm"], w["emf"], w["temp"], w["ma"],
                        w["tot"], w["ks"], double=False, **kw)
    for i in range(n):
        ctx.true(f"used {i}", bool(sr.used[i]) == used[i])
        ctx.true(f"Gran used {i}", bool(sr.ggr.used[i]) == bool(g.used[i]))
    ctx.eq("Gran emf0", sr.ggr.emf0, g.emf0)
    ctx.eq("Gran alkalinity", sr.ggr.alkalinity, g.alkalinity)


def two_passes(ctx, n, logic):
    """default double solve: the second window follows the first solution and
    the Gran rule is the requested one throughout"""
    w = setup(ctx, n, (), legacy=logic == "legacy")
    kw = {} if logic is None else {"gran_logic": logic}
    first = [ph_of(w["emf"][i], w["e0"], w["t"]) for i in range(n)]
    for p in first:
        ctx.assume(p > 3 + 1e-6)
        ctx.assume(p < 4 - 1e-6)
    a0 = ctx.real("a0", lo=0, hi=1e4, nice=(2290, 2310))
    args = (w["mol"], w["tm"], w["emf"], w["temp"], w["ma"], w["tot"], w["ks"])
    one = core.solve_emf(*args, alkalinity_init=a0, emf0_init=w["e0"],
                         double=False, **kw)
    est = [ph_of(w["emf"][i], one.emf0, w["t"]) for i in range(n)]
    used = mask(ctx, est, 3, 4)
    two = core.solve_emf(*args, alkalinity_init=a0, emf0_init=w["e0"],
                         **({} if logic is None else {"double": True}), **kw)
    for i in range(n):
        ctx.true(f"used {i}", bool(two.used[i]) == used[i])
    idx = [i for i in range(n) if used[i]]
    check_min(ctx, "second pass", residuals(w, 1, idx), two.alkalinity,
              two.emf0, start=[ALK, w["e0"]])
    g = core.gran_guesses(w["tm"], w["emf"], w["temp"], w["ma"], w["mol"],
                          **kw)
    for i in range(n):
        ctx.true(f"Gran used {i}", bool(two.ggr.used[i]) == bool(g.used[i]))
    ctx.eq("Gran alkalinity", two.ggr.alkalinity, g.alkalinity)


def ph_solvers(ctx, n, window):
    """known pH: exact comparison with the limits"""
    solver = ctx.choice("solver", ["solve_pH", "solve_pH_gran"])
    f = getattr(core, solver)
    tm = ctx.arr([ctx.real(f"tm[{i}]", lo=0, hi=0.05,
                           nice=around(2.5e-3 + 3e-4 * i, 1e-3))
                  for i in range(n)])
    for i in range(n - 1):
        ctx.assume(tm[i + 1] >= tm[i] + 1e-5)
    kw = {}
    lo, hi = 3, 4
    if window == "symbolic":
        lo = ctx.real("pH_min", lo=-2, hi=12, nice=(2.9, 3.1))
        hi = ctx.real("pH_max", lo=-2, hi=12, nice=(3.9, 4.1))
        ctx.assume(lo < hi)
        kw = dict(pH_min=lo, pH_max=hi)
    elif window:
        lo, hi = window
        kw = dict(pH_min=lo, pH_max=hi)
    ph = ctx.vec("pH", n, lo=-2, hi=12, nice=(2.8, 4.2))
    used = [bool(p >= lo) and bool(p <= hi) for p in ph]
    if sum(used) < 2:
        ctx.assume(False)
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 0.01))
    ks = {"k_water": 4.5e-14}
    temp = np.full(n, 25.0)
    r = f(0.1, tm, ph, temp, ma, {}, ks, **kw)
    for i in range(n):
        ctx.true(f"{solver} used {i}", bool(r.used[i]) == used[i])


def refused(ctx):
    """empty and reversed windows"""
    name = ctx.choice("solver", ["solve_emf", "solve_pH", "solve_pH_gran"])
    lo = ctx.real("pH_min", lo=0, hi=9, nice=(3.2, 4))
    hi = ctx.real("pH_max", lo=0, hi=9, nice=(2, 3.1))
    if ctx.flag("empty"):
        hi = lo
    else:
        ctx.assume(lo > hi)
    tm = ctx.arr([2.5e-3, 2.8e-3, 3.1e-3])
    temp = np.full(3, 25.0)
    if name == "solve_emf":
        m = ctx.arr([380.0, 400.0, 410.0])
        kw = dict(emf0_init=600.0, alkalinity_init=2300.0)
    else:
        m = ctx.arr([3.6, 3.3, 3.1])
        kw = {}
    try:
        getattr(core, name)(0.1, tm, m, temp, 0.1, {}, {"k_water": 4.5e-14},
                            pH_min=lo, pH_max=hi, **kw)
        ok = False
    except Exception:
        ok = True
    ctx.true(f"{name} refuses", ok)


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 4
    lim = dict(time_limit=200 if q else 1500, trace_rtol=1e-3,
               trace_nice=True)
    H = Harness
    out = []
    for i, win in enumerate(WINDOWS):
        out.append(H(f"given_emf0_{i}", given_emf0,
                     f"{n} points, window {win or 'default 3..4'}",
                     dict(n=n, window=win), **lim))
    out += [
        H("unused_point", unused_point, f"{n} points, first or last one "
          "outside", dict(n=n), **lim),
        H("gran_default", gran_emf0, f"{n} points, Gran estimate",
          dict(n=n, logic=None), **lim),
        H("gran_legacy", gran_emf0, f"{n} points, legacy Gran rule",
          dict(n=n, logic="legacy"), **lim),
        H("two_passes", two_passes, f"{n} points, default",
          dict(n=n, logic=None), **lim),
        H("two_passes_legacy", two_passes, f"{n} points, legacy Gran rule",
          dict(n=n, logic="legacy"), **lim),
        H("ph_default", ph_solvers, f"{n} points, default window",
          dict(n=n, window=None), **lim),
        H("ph_symbolic", ph_solvers, f"{n} points, any window",
          dict(n=n, window="symbolic"), **lim),
        H("refused", refused, "any empty or reversed window", {}, **lim),
    ]
    return out
