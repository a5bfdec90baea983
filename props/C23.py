"""DIC-loss model: conservation, fCO2, join, fit."""

import math

import numpy as np

from calkulate import loss

from props.common import lsq
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PCHIP interpolation as an uninterpreted function of its nodes and "
    "position, exact at the nodes",
    "SciPy least squares by contract",
]
AIR = 450.0


def interp(ctx, x, y, at):
    if ctx.sym:
        from symx.shims import pchip_interpolate
    else:
        from scipy.interpolate import pchip_interpolate
    return pchip_interpolate(x, y, at)


def fco2(dic, h, k0, k1, k2):
    """carbonic acid fraction over solubility"""
    return dic * h * h / (h * h + k1 * h + k1 * k2) / k0


def step_fitted(dic, m, delta, k, ma, step):
    """amount of carbon conserved apart from the outgassing"""
    return dic * (ma + m) / (ma + m + step) - k * delta * step


def fitted(ctx, n, zero):
    """every step dilutes and outgasses, nothing else"""
    k = 0.0 if zero else ctx.real("k", lo=-50, hi=200, nice=(1, 60))
    step = ctx.real("step", lo=1e-6, hi=1e-3, nice=(1e-5, 2e-5))
    ma = ctx.real("ma", lo=0.01, hi=1, nice=(0.09, 0.11))
    d0 = ctx.real("dic", lo=1e-5, hi=0.01, nice=(1.9e-3, 2.2e-3))
    m = ctx.arr([ctx.real(f"m{i}", lo=0, hi=0.1, nice=(1e-5 * i + 1e-6,
                                                       1e-5 * i + 2e-6))
                 for i in range(n)])
    delta = ctx.vec("delta", n, lo=-450, hi=1e5, nice=(-100, 9000))
    if zero:
        # masses in steps: only dilution, in closed form
        m = ctx.arr([step * i for i in range(n)])
    got = loss.dic_loss_model_fitted(k, m, delta, d0, ma, step)
    ctx.true("length", len(got) == n)
    ctx.eq("start", got[0], d0 * 1e6)
    for i in range(n - 1):
        ctx.eq(f"step {i}", got[i + 1], step_fitted(got[i], m[i], delta[i], k,
                                                    ma, step))
        if zero:
            ctx.eq(f"carbon {i}", got[i + 1] * (ma + m[i + 1]), d0 * 1e6 * ma)


def fugacity(ctx):
    p = ctx.real("pH", lo=2, hi=10, nice=(3, 8))
    dic = ctx.real("dic", lo=0, hi=1e4, nice=(10, 3000))
    k0 = ctx.real("k0", lo=1e-3, hi=1, nice=(0.02, 0.05))
    k1 = ctx.real("k1", lo=1e-9, hi=1e-3, nice=(1e-6, 2e-6))
    k2 = ctx.real("k2", lo=1e-12, hi=1e-6, nice=(1e-9, 2e-9))
    got = loss.get_fCO2_from_dic_pH(dic, p, k0, k1, k2)
    h = 10.0 ** (-p)
    ctx.eq("fCO2", got, fco2(dic, h, k0, k1, k2))
    # mass balance and mass action of the carbonate system
    co2 = got * k0
    ctx.eq("carbon", co2 + co2 * k1 / h + co2 * k1 * k2 / (h * h), dic)


def future(ctx, n, zero):
    """the forecast takes over one step after the fitted section"""
    k = 0.0 if zero else ctx.real("k", lo=-50, hi=200, nice=(1, 60))
    step = ctx.real("step", lo=1e-6, hi=1e-3, nice=(1e-5, 2e-5))
    ma = ctx.real("ma", lo=0.01, hi=1, nice=(0.09, 0.11))
    m0 = ctx.real("m_first", lo=1e-3, hi=0.1, nice=(1e-3, 2e-3))
    free = not zero and n <= 4
    m = ctx.arr([ctx.real(f"m{i}", lo=1e-3, hi=0.1, nice=(
        1e-3 + 1e-5 * i, 1e-3 + 1.1e-5 * i + 1e-6)) if free
        else m0 + step * i for i in range(n)])
    pH = ctx.vec("pH", n, lo=2, hi=6, nice=(3, 5))
    k0 = ctx.vec("k0", n, lo=1e-3, hi=1, nice=(0.02, 0.05))
    k1 = ctx.vec("k1", n, lo=1e-9, hi=1e-3, nice=(1e-6, 2e-6))
    k2 = ctx.vec("k2", n, lo=1e-12, hi=1e-6, nice=(1e-9, 2e-9))
    s = {x: ctx.real(x + "_start", lo=a, hi=b, nice=c) for x, a, b, c in (
        ("pH", 2, 9, (5, 6)), ("k0", 1e-3, 1, (0.02, 0.05)),
        ("k1", 1e-9, 1e-3, (1e-6, 2e-6)), ("k2", 1e-12, 1e-6, (1e-9, 2e-9)),
        ("delta", -450, 1e5, (100, 9000)), ("dic", 1, 1e4, (1500, 2200)))}
    kw, air = {}, AIR
    if ctx.flag("air"):
        air = kw["fCO2_air"] = ctx.real("air", lo=1, hi=2000, nice=(300, 600))
    dic, delta = loss.dic_loss_model_future(
        k, m, pH, k0, k1, k2, s["delta"], s["dic"], s["pH"], s["k0"], s["k1"],
        s["k2"], ma, step, **kw)
    ctx.true("length", len(dic) == n == len(delta))
    ctx.eq("first", dic[0], step_fitted(s["dic"], m[0] - step, s["delta"], k,
                                        ma, step))
    ctx.eq("first fCO2", delta[0], fco2(dic[0], 10.0 ** (-s["pH"]), s["k0"],
                                        s["k1"], s["k2"]) - air)
    for i in range(n - 1):
        ctx.eq(f"step {i}", dic[i + 1], step_fitted(dic[i], m[i], delta[i], k,
                                                    ma, step))
        ctx.eq(f"fCO2 {i + 1}", delta[i + 1], fco2(
            dic[i + 1], 10.0 ** (-pH[i + 1]), k0[i + 1], k1[i + 1],
            k2[i + 1]) - air)
        if zero:
            ctx.eq(f"carbon {i}", dic[i + 1] * (ma + m[i + 1]),
                   s["dic"] * (ma + m[0] - step))


def reference(ctx, w, air, split):
    """the model at high resolution, straight from its description"""
    tm = w["tm"]
    d = sorted(b - a for a, b in zip(tm, tm[1:]))
    n = len(d)
    step = (d[n // 2] if n % 2 else (d[n // 2 - 1] + d[n // 2]) / 2) / 10
    fine = [float(x) for x in np.arange(0, max(tm), step)]
    pH = interp(ctx, tm, w["pH"], np.array(fine))
    cut = sum(bool(p >= split) for p in pH)
    im, fm = fine[:cut], fine[cut:]
    delta = interp(ctx, tm, [v - air for v in w["fCO2"]], np.array(im))
    goal = interp(ctx, tm, w["dic"], np.array(im))
    ma = w["ma"]

    def section(k):
        out = [w["dic0"] * 1e6]
        for i in range(cut - 1):
            out.append(step_fitted(out[-1], im[i], delta[i], k, ma, step))
        return out

    def f(x):
        r = [a - b for a, b in zip(section(x[0]), goal)]
        return r if ctx.sym else np.array([float(v) for v in r])

    k = lsq(ctx, f, [1.0])[0]
    dic, dl = section(k), list(delta)
    at = {x: interp(ctx, tm, w[x], np.array(fm)) for x in ("pH", "k0", "k1",
                                                           "k2")}
    end = {x: interp(ctx, tm, w[x], im[-1]) for x in ("pH", "k0", "k1", "k2")}
    for i in range(len(fm)):
        m = fm[i] - step if i == 0 else fm[i - 1]
        dic.append(step_fitted(dic[-1], m, dl[-1], k, ma, step))
        q = end if i == 0 else {x: at[x][i] for x in at}
        dl.append(fco2(dic[-1], 10.0 ** (-q["pH"]), q["k0"], q["k1"],
                       q["k2"]) - air)
    return dict(k=k, fine=fine, pH=pH, dic=dic, delta=dl, cut=cut, step=step)


def whole(ctx, tm, pHs, split, final, nans=False):
    """fit and forecast of a short titration"""
    n = len(tm)
    w = dict(tm=list(tm), pH=ctx.arr([float(p) for p in pHs]))
    w["dic"] = [ctx.real(f"dic{i}", lo=1, hi=5000,
                         nice=(2100 - 60 * i, 2110 - 60 * i))
                for i in range(n)]
    w["fCO2"] = [ctx.real(f"fCO2{i}", lo=1, hi=1e5,
                          nice=(500 + 3000 * i, 600 + 3000 * i))
                 for i in range(n)]
    for x, lo, hi, nice in (("k0", 1e-3, 1, (0.028, 0.03)),
                            ("k1", 1e-9, 1e-3, (1e-6, 1.1e-6)),
                            ("k2", 1e-12, 1e-6, (1e-9, 1.1e-9))):
        # one value throughout, or changing
        v = ctx.real(x, lo=lo, hi=hi, nice=nice)
        w[x] = ctx.arr([v * (1.0 + 0.0625 * i) for i in range(n)])
    w["ma"] = ctx.real("ma", lo=0.01, hi=1, nice=(0.09, 0.11))
    w["dic0"] = ctx.real("dic_start", lo=1e-5, hi=0.01, nice=(2e-3, 2.1e-3))
    kw, air = {}, AIR
    if ctx.flag("air"):
        air = kw["fCO2_air"] = ctx.real("air", lo=1, hi=2000, nice=(300, 600))
    if split is not None:
        kw["split_pH"] = split
    else:
        split = 5.5
    if n > 2 and not nans:
        # (which one is the largest only matters where some are missing)
        for a, b in zip(w["fCO2"], w["fCO2"][1:]):
            ctx.assume(a <= b)
    given = dict(w)
    if nans:
        # missing DIC counts as none, missing fCO2 as the largest
        given["dic"] = [math.nan] + w["dic"][1:]
        given["fCO2"] = [math.nan] + w["fCO2"][1:]
        for v in w["fCO2"][2:]:
            ctx.assume(w["fCO2"][1] >= v)
        w["dic"] = [0.0] + w["dic"][1:]
        w["fCO2"] = [w["fCO2"][1]] + w["fCO2"][1:]
    args = (np.array(tm), w["pH"], ctx.arr(given["dic"]),
            ctx.arr(given["fCO2"]),
            w["k0"], w["k1"], w["k2"], w["ma"], w["dic0"])
    r = reference(ctx, w, air, split)
    before = [list(a) if hasattr(a, "__len__") else a for a in args]

    def untouched():
        for j, (a, b) in enumerate(zip(args, before)):
            pairs = zip(a, b) if isinstance(b, list) else [(a, b)]
            for i, (x, y) in enumerate(pairs):
                if isinstance(y, float) and y != y:
                    ctx.true(f"argument {j} unchanged {i}",
                             isinstance(x, float) and x != x)
                else:
                    ctx.eq(f"argument {j} unchanged {i}", x, y, trace=False)

    if not final:
        k, hi = loss.get_dic_loss_hires(*args, **kw)
        untouched()
        ctx.eq("rate constant", k, r["k"], rtol=1e-5, atol=1e-6)
        for x, key in (("titrant_mass", "fine"), ("pH", "pH")):
            ctx.eq("fine " + x, hi[x], r[key])
        for x in ("dic", "delta_fCO2"):
            ctx.true("length of " + x, len(hi[x]) == len(r["fine"]))
        for i in range(len(r["fine"])):
            ctx.eq(f"DIC {i}", hi["dic"][i], r["dic"][i], rtol=1e-5)
            ctx.eq(f"fCO2 difference {i}", hi["delta_fCO2"][i],
                   r["delta"][i], rtol=1e-5, atol=1e-4)
        return
    k, dic, f, fit = loss.get_dic_loss(*args, **kw)
    untouched()
    ctx.eq("rate constant", k, r["k"], rtol=1e-5, atol=1e-6)
    want = interp(ctx, r["fine"], r["dic"], np.array(tm))
    wf = interp(ctx, r["fine"], r["delta"], np.array(tm))
    for i in range(n):
        ctx.true(f"fitted {i}", bool(fit[i]) == (pHs[i] >= split))
        ctx.eq(f"DIC {i}", dic[i], want[i] * 1e-6, rtol=1e-5, trace=False)
        ctx.eq(f"fCO2 {i}", f[i], wf[i] + air, rtol=1e-5, trace=False)


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=300 if q else 1500)
    out = [H("fugacity", fugacity, "any pH and constants", {}, **lim)]
    for zero in (False, True):
        z = "_zero" if zero else ""
        for n in (2, 3, 5) if q else (2, 3, 5, 8):
            out.append(H(f"fitted_{n}{z}", fitted, f"{n} points",
                         dict(n=n, zero=zero), **lim))
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(H(f"future_{n}{z}", future, f"{n} points",
                         dict(n=n, zero=zero), **lim))
    cases = [("two", (0.0, 3e-3), (8.0, 5.2), None),
             ("two_split", (0.0, 3e-3), (8.0, 6.0), 6.5),
             ("three", (0.0, 2e-3, 2.6e-3), (8.0, 6.0, 5.0), None),
             ("edge", (0.0, 2.4e-3, 2.6e-3), (8.0, 5.5, 5.0), None),
             ("four", (0.0, 6e-4, 1.2e-3, 1.3e-3), (8.0, 6.0, 5.6, 5.2),
              None)]
    for name, tm, pHs, split in cases:
        for final in (False, True):
            out.append(H(("points_" if final else "fine_") + name, whole,
                         f"titrant masses {tm}, pH {pHs}",
                         dict(tm=tm, pHs=pHs, split=split, final=final),
                         trace_rtol=1e-4, **lim))
        out.append(H("missing_" + name, whole,
                     f"titrant masses {tm}, pH {pHs}, missing values",
                     dict(tm=tm, pHs=pHs, split=split, final=False,
                          nans=True), trace_rtol=1e-4, **lim))
    return out
