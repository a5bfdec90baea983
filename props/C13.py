"""Gran estimates."""

import numpy as np

from calkulate import core

from props.common import F, MA, MOL, R, T0, around, h_emf
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "scipy.stats.linregress by its closed form (ordinary least squares)",
    "concrete replays skip Gran values within 1e-9 (relative) of a threshold",
]


def log(ctx, v):
    return v.log() if ctx.sym else np.log(v)


def masses(ctx, n, lo=2.5e-3, step=2.5e-4, gap=1e-5):
    tm = [ctx.real(f"tm[{i}]", lo=1e-6, hi=0.05,
                   nice=around(lo + step * i, 1e-3)) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(tm[i + 1] >= tm[i] + gap)
    return ctx.arr(tm)


def basics(ctx, norms=(1, "free")):
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 1e-3))
    mol = ctx.real("mol", lo=0.01, hi=1, nice=around(MOL, 1e-3))
    norm = ctx.choice("normality", norms)
    kw = {}
    if norm == "free":
        norm = kw["titrant_normality"] = ctx.real(
            "norm", lo=0.1, hi=3, nice=(0.98, 1.02))
    return ma, mol, norm, kw


def selected(ctx, g, rule):
    """the points a rule uses"""
    n = len(g)
    if ctx.sym:
        top = g[0]
        for v in g[1:]:
            if bool(v > top):
                top = v
    else:
        top = max(g)
        for v in g:
            for x in (0.1, 0.9):
                if abs(v - x * top) < 1e-9 * top:
                    ctx.assume(False)
    if rule == "legacy":
        return [bool(v > 0.1 * top) and bool(v < 0.9 * top) for v in g]
    first = next(i for i in range(n) if bool(g[i] > 0.1 * top))
    return [i >= first for i in range(n)]


def line(x, y):
    """ordinary least squares; slope, zero crossing"""
    n = len(x)
    xm, ym = sum(x) / n, sum(y) / n
    sxx = sum((a - xm) * (a - xm) for a in x)
    sxy = sum((a - xm) * (b - ym) for a, b in zip(x, y))
    slope = sxy / sxx
    return slope, -(ym - slope * xm) / slope


SHAPES = [
    # relative Gran values: a late peak, dips, values next to 10 % and 90 %
    (0.98, 2.2, 4, 6, 8, 10, 9.6), (2, 0.5, 6, 10), (0.6, 2, 0.7, 6, 10),
    (0.9, 1.1, 5.5, 8.9, 10), (1.5, 4, 6.5, 9.2, 10),
    (0.9, 2.2, 4, 6, 8, 10, 8.85),
]


def any_data(ctx, n, rule, shapes=None):
    """arbitrary Gran values: which points are used, and the regression"""
    ma, mol, norm, kw = basics(ctx)
    if shapes:
        shape = ctx.choice("shape", shapes)
        n = len(shape)
    tm = masses(ctx, n)
    t = ctx.real("t", lo=0, hi=50, nice=(20, 30))
    if shapes:
        unit = ctx.real("unit", lo=1e-6, hi=100, nice=(1e-5, 2e-5))
        g = []
        for i, v in enumerate(shape):
            w = ctx.real(f"w[{i}]", lo=0.997, hi=1.003, nice=(0.999, 1.001))
            g.append(unit * v * w)
    else:
        g = [ctx.real(f"g[{i}]", lo=1e-6, hi=1e3,
                      nice=around(2.0e-5 + 2.5e-5 * i, 0.1))
             for i in range(n)]
    emf = ctx.arr([log(ctx, g[i] / (tm[i] + ma)) * R * (t + T0) / F
                   for i in range(n)])
    used = selected(ctx, g, rule)
    idx = [i for i in range(n) if used[i]]
    if len(idx) < 2:
        ctx.assume(False)
    slope, zero = line([tm[i] for i in idx], [g[i] for i in idx])
    ctx.assume(slope > 1e-6)
    ctx.lr_min = 0.95
    if rule is not None:
        kw["gran_logic"] = rule
    temp = ctx.arr([t] * n)
    r = core.gran_alkalinity(tm, emf, temp, ma, mol, **kw)
    ctx.eq("Gran function", r.gfunc, ctx.arr(g))
    ctx.eq("Gran function alone", core.gran_function(tm, emf, temp, ma),
           ctx.arr(g))
    for i in range(n):
        ctx.true(f"used {i}", bool(r.used[i]) == used[i])
    ctx.eq("zero crossing", r.intercept_x, zero, rtol=1e-6, atol=1e-9)
    ctx.eq("Gran alkalinity", r.alkalinity * ma, zero * mol * norm, rtol=1e-6,
           atol=1e-10)


def temps(ctx, n):
    """Gran function with a temperature of its own at each point"""
    tm = masses(ctx, n)
    ma = ctx.real("ma", lo=0.01, hi=1, nice=around(MA, 1e-3))
    t = ctx.vec("t", n, lo=0, hi=50, nice=(20, 30))
    g = [ctx.real(f"g[{i}]", lo=1e-9, hi=1e3, nice=(1e-4, 1)) for i in range(n)]
    emf = ctx.arr([log(ctx, g[i] / (tm[i] + ma)) * R * (t[i] + T0) / F
                   for i in range(n)])
    ctx.eq("Gran function", core.gran_function(tm, emf, t, ma), ctx.arr(g))


def linear(ctx, n, rule):
    """exactly linear Gran function: alkalinity is exact whatever the slope"""
    ma, mol, norm, kw = basics(ctx)
    tm = masses(ctx, n, lo=2.45e-3)
    t = ctx.real("t", lo=0, hi=50, nice=(20, 30))
    x0 = ctx.real("x0", lo=1e-7, hi=0.05, nice=around(2.3e-3, 1e-3))
    s = ctx.real("s", lo=1e-3, hi=1e6, nice=(10, 100))
    ctx.assume(tm[0] >= x0 + 1e-6)
    g = [s * (tm[i] - x0) for i in range(n)]
    emf = ctx.arr([log(ctx, g[i] / (tm[i] + ma)) * R * (t + T0) / F
                   for i in range(n)])
    if rule == "legacy":
        ctx.assume(g[0] > 0.101 * g[-1])
        ctx.assume(g[n - 2] < 0.899 * g[-1])
    elif ctx.flag("all_above"):
        ctx.assume(g[0] > 0.101 * g[-1])
    else:
        ctx.assume(g[0] < 0.099 * g[-1])
        ctx.assume(g[1] > 0.101 * g[-1])
    if rule is not None:
        kw["gran_logic"] = rule
    ctx.lr_min = 0.95
    r = core.gran_alkalinity(tm, emf, ctx.arr([t] * n), ma, mol, **kw)
    ctx.eq("Gran alkalinity", r.alkalinity, x0 * mol * norm / ma, rtol=1e-6)


def emf0s(ctx, n):
    """excess acid sets [H+]: every point gives the true EMF0"""
    ma, mol, norm, kw = basics(ctx)
    tm = masses(ctx, n)
    t = ctx.vec("t", n, lo=0, hi=50, nice=(20, 30))
    e0 = ctx.real("e0", lo=-1000, hi=1000, nice=(500, 700))
    alk = ctx.real("alk", lo=1e-6, hi=0.1, nice=(2.2e-3, 2.3e-3))
    ctx.assume(tm[0] * mol * norm >= ma * alk * 1.0001)
    h = [(tm[i] * mol * norm - ma * alk) / (tm[i] + ma) for i in range(n)]
    emf = ctx.arr([e0 + log(ctx, h[i]) * R * (t[i] + T0) / F
                   for i in range(n)])
    r = core.gran_emf0s(tm, emf, t, ma, mol, alk, **kw)
    ctx.eq("EMF0 estimates", r, ctx.arr([e0] * n))


def guesses(ctx, n, rule):
    """ideal strong-acid data: the guesses are the truth"""
    ma, mol, norm, kw = basics(ctx, (1,))
    tm = masses(ctx, n)
    t = ctx.real("t", lo=0, hi=50, nice=(24.9, 25.1))
    e0 = ctx.real("e0", lo=-1000, hi=1000, nice=(590, 610))
    alk = ctx.real("alk", lo=1e-6, hi=0.1, nice=(2.2e-3, 2.3e-3))
    ctx.assume(tm[0] * mol * norm >= ma * alk * 1.0001)
    ex = [tm[i] * mol * norm - ma * alk for i in range(n)]
    ctx.assume(ex[0] > 0.101 * ex[-1])
    if rule == "legacy":
        ctx.assume(ex[n - 2] < 0.899 * ex[-1])
    emf = ctx.arr([e0 + log(ctx, ex[i] / (tm[i] + ma)) * R * (t + T0) / F
                   for i in range(n)])
    if rule:
        kw["gran_logic"] = rule
    ctx.lr_min = 0.95
    r = core.gran_guesses(tm, emf, ctx.arr([t] * n), ma, mol, **kw)
    ctx.eq("alkalinity", r.alkalinity, alk, rtol=1e-6)
    # EMF0 estimates at that alkalinity: harness emf0s
    for i in range(n):
        if not ctx.sym:
            ctx.eq(f"EMF0 {i}", r.emf0s[i], e0)
        ctx.true(f"used {i}", bool(r.used[i]) == (
            rule != "legacy" or i < n - 1))


def guess_consistency(ctx, n):
    """on any data: the EMF0 guess is the mean of the estimates of the points
    used, and the pH that of this EMF0"""
    ma, mol, norm, kw = basics(ctx, ("free",))
    tm = masses(ctx, n)
    t = ctx.real("t", lo=0, hi=50, nice=(24.9, 25.1))
    g = [ctx.real(f"g[{i}]", lo=1e-6, hi=1e3,
                  nice=around((2.2e-4 + 2.5e-4 * i) * 1e8, 0.02))
         for i in range(n)]
    ctx.assume(g[1] > g[0] * 1.001)
    for i in range(2, n):
        ctx.assume(g[i] > g[i - 1] * 1.001)
    ctx.assume(g[0] < 0.099 * g[-1])
    ctx.assume(g[1] > 0.101 * g[-1])
    emf = ctx.arr([log(ctx, g[i] / (tm[i] + ma)) * R * (t + T0) / F
                   for i in range(n)])
    ctx.lr_min = 0.95
    temp = ctx.arr([t] * n)
    r = core.gran_guesses(tm, emf, temp, ma, mol, **kw)
    if not ctx.sym:
        ctx.assume(bool(np.all(np.isfinite(r.emf0s[1:]))))
    s = 0
    for i in range(1, n):
        s = s + r.emf0s[i]
    ctx.eq("EMF0", r.emf0, s / (n - 1))
    for i in range(n):
        ctx.eq(f"pH {i}", r.pH[i], -np.log10(h_emf(emf[i], r.emf0, t)),
               rtol=1e-6, atol=1e-9)
        ctx.eq(f"EMF0 {i}", r.emf0s[i], emf[i] - R * (t + T0) / F * log(
            ctx, (tm[i] * mol * norm - ma * r.alkalinity) / (tm[i] + ma)))


def refused(ctx):
    rule = ctx.choice("rule", ["", "Legacy", "v23.7", "none", None, "v23"])
    tm = ctx.arr([2.5e-3, 2.8e-3, 3.1e-3])
    emf = ctx.arr([380.0, 400.0, ctx.real("e", lo=400, hi=450)])
    temp = np.full(3, 25.0)
    f = ctx.choice("function", ["gran_alkalinity", "gran_guesses"])
    try:
        getattr(core, f)(tm, emf, temp, 0.1, 0.1, gran_logic=rule)
        ok = False
    except Exception:
        ok = True
    ctx.true("refused", ok, f"gran_logic={rule!r}")


def with_ph(ctx, n, mode):
    """Gran solver for known pH"""
    ma, mol, norm, kw = basics(ctx)
    tm = masses(ctx, n)
    if mode == "linear":
        x0 = ctx.real("x0", lo=1e-7, hi=0.05, nice=around(2.3e-3, 1e-3))
        s = ctx.real("s", lo=1e-3, hi=1e2, nice=(0.098, 0.102))
        ctx.assume(tm[0] >= x0 + 1e-7)
        g = [s * (tm[i] - x0) for i in range(n)]
        h = [g[i] / (tm[i] + ma) for i in range(n)]
    else:
        h = [ctx.real(f"h[{i}]", lo=1e-9, hi=1,
                      nice=around(1.9e-4 + 2.4e-4 * i, 0.03))
             for i in range(n)]
        g = [h[i] * (tm[i] + ma) for i in range(n)]
    ph = ctx.arr([-log(ctx, v) / np.log(10) for v in h]) if not ctx.sym else \
        ctx.arr([-(v.log10()) for v in h])
    out = ctx.choice("outside", [None, 0, n - 1])
    lo, hi = 3, 4
    if ctx.flag("own_window"):
        lo, hi = 2.5, 5
        kw.update(pH_min=lo, pH_max=hi)
    for i in range(n):
        if i == out:
            ctx.assume(h[i] < 10.0**-hi * 0.999 if i == 0
                       else h[i] > 10.0**-lo * 1.001)
        else:
            ctx.assume(h[i] < 10.0**-lo * 0.999)
            ctx.assume(h[i] > 10.0**-hi * 1.001)
    idx = [i for i in range(n) if i != out]
    if mode == "linear":
        zero = x0
    else:
        slope, zero = line([tm[i] for i in idx], [g[i] for i in idx])
        ctx.assume(slope > 1e-6)
    ctx.lr_min = 0.95
    temp = np.full(n, 25.0)
    r = core.solve_pH_gran(mol, tm, ph, temp, ma, {}, {}, **kw)
    for i in range(n):
        ctx.true(f"used {i}", bool(r.used[i]) == (i != out))
    ctx.eq("Gran function", r.gfunc, ctx.arr(g))
    ctx.eq("alkalinity", r.alkalinity * ma, 1e6 * zero * mol * norm,
           rtol=1e-6, atol=1e-6)


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 4
    lim = dict(time_limit=240 if q else 1500, trace_rtol=1e-5)
    H = Harness
    out = []
    for rule in (None, "legacy"):
        nm = rule or "default"
        out += [
            H(f"any_{nm}", any_data, f"{n} points, any Gran values",
              dict(n=n, rule=rule), **lim),
            H(f"shapes_{nm}", any_data, f"{len(SHAPES)} shapes, 4 to 7 points",
              dict(n=n, rule=rule, shapes=SHAPES), **lim),
            H(f"linear_{nm}", linear, f"{n + 1} points",
              dict(n=n + 1, rule=rule), **lim),
            H(f"guesses_{nm}", guesses, f"{n} points, one temperature",
              dict(n=n, rule=rule), **lim),
        ]
    out += [
        H("temperatures", temps, "4 points", dict(n=4), **lim),
        H("emf0s", emf0s, "3 points", dict(n=3), **lim),
        H("guess_consistency", guess_consistency, "3 points, the first one "
          "not used", dict(n=3), **lim),
        H("refused", refused, "6 unknown rules", {}, **lim),
        H("pH_linear", with_ph, f"{n} points", dict(n=n, mode="linear"),
          **lim),
        H("pH_any", with_ph, f"{n} points", dict(n=n, mode="any"), **lim),
    ]
    return out
