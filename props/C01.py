"""EMF, [H+] and pH conversions."""

import math

from calkulate import constants, convert

from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754 (float rounding outside the claim)",
    "temperature > -273 C, [H+] and f > 0",
]
# CODATA values the package documents, stated independently of its constants
F, R, T0 = 96.4853365, 8.3144621, 273.15


def nernst(ctx, n, shape):
    emf0 = ctx.real("emf0", -3000, 3000, (300, 700))
    mk = (lambda nm, **k: ctx.real(nm, **k)) if shape == "scalar" else (
        lambda nm, **k: ctx.vec(nm, n, **k))
    t = mk("t", lo=-250, hi=500, nice=(2, 38))
    if shape == "mixed":
        t = ctx.real("ts", lo=-250, hi=500, nice=(2, 38))
    emf = mk("emf", lo=-5000, hi=5000, nice=(100, 600))
    h = convert.emf_to_h(emf, emf0, t)
    pH = convert.emf_to_pH(emf, emf0, t)
    ctx.eq("h->emf inverts emf->h", convert.h_to_emf(h, emf0, t), emf,
           atol=1e-6)
    ctx.eq("pH->emf inverts emf->pH", convert.pH_to_emf(pH, emf0, t), emf,
           atol=1e-6)
    if shape == "scalar":
        es, ts, hs, ps = [emf], [t], [h], [pH]
    else:
        es, hs, ps = list(emf), list(h), list(pH)
        ts = list(t) if shape == "array" else [t] * n
    for i in range(len(es)):
        ln_h = (es[i] - emf0) * F / (R * (ts[i] + T0))
        ctx.eq(f"Nernst slope [H+] {i}", ln(ctx, hs[i]), ln_h, atol=1e-9)
        ctx.eq(f"Nernst slope pH {i}", ps[i], -ln_h / LN10, atol=1e-9)


def ln(ctx, x):
    return x.log() if ctx.sym else math.log(x)


LN10 = math.log(10)


def from_h(ctx, n):
    emf0 = ctx.real("emf0", -3000, 3000, (300, 700))
    t = ctx.vec("t", n, lo=-250, hi=500, nice=(2, 38))
    h = ctx.vec("h", n, lo=1e-14, hi=10, nice=(1e-9, 1e-2))
    emf = convert.h_to_emf(h, emf0, t)
    ctx.eq("emf->h inverts h->emf", convert.emf_to_h(emf, emf0, t), h)
    pH = ctx.vec("pH", n, lo=-2, hi=16, nice=(2.5, 9))
    emf = convert.pH_to_emf(pH, emf0, t)
    ctx.eq("emf->pH inverts pH->emf", convert.emf_to_pH(emf, emf0, t), pH,
           atol=1e-9)
    ctx.eq("[H+] = 10**-pH", convert.emf_to_h(emf, emf0, t), 10.0 ** -pH)


def f_factor(ctx, n):
    """shifting EMF0 by f_to_demf0(f) divides [H+] by f"""
    emf0 = ctx.real("emf0", -3000, 3000, (300, 700))
    f = ctx.real("f", 1e-6, 1e6, (0.5, 2))
    t = ctx.vec("t", n, lo=-250, hi=500, nice=(2, 38))
    emf = ctx.vec("emf", n, lo=-5000, hi=5000, nice=(100, 600))
    d = convert.f_to_demf0(f, t)
    h0 = convert.emf_to_h(emf, emf0, t)
    h1 = convert.emf_to_h(emf, emf0 + d, t)
    ctx.eq("f scales [H+]", h1 * f, h0)


def monotonic(ctx):
    """more acid reads as higher EMF and lower pH"""
    emf0 = ctx.real("emf0", -3000, 3000, (300, 700))
    t = ctx.real("t", -250, 500, (2, 38))
    e1 = ctx.real("e1", -5000, 5000, (100, 600))
    d = ctx.real("d", 1e-3, 5000, (1, 100))
    p1 = convert.emf_to_pH(e1, emf0, t)
    p2 = convert.emf_to_pH(e1 + d, emf0, t)
    ctx.true("pH falls as EMF rises", p2 < p1)
    z = convert.emf_to_pH(emf0, emf0, t)
    ctx.eq("pH is 0 at EMF0", z, 0.0, atol=1e-9)


def harnesses(tier):
    n = 3 if tier == "quick" else 8
    b = f"n={n} points; EMF, EMF0 +-5000 mV, -250..500 C, [H+] 1e-14..10"
    return [
        Harness("nernst_array", nernst, b, dict(n=n, shape="array")),
        Harness("nernst_scalar", nernst, b, dict(n=1, shape="scalar")),
        Harness("nernst_mixed", nernst, b, dict(n=n, shape="mixed")),
        Harness("from_h", from_h, b, dict(n=n)),
        Harness("f_factor", f_factor, b, dict(n=n)),
        Harness("monotonic", monotonic, b),
    ]
