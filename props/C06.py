"""Density equations and their validity warnings."""

import warnings

from calkulate import density

from props.C05 import h2so4_density, hcl_density, sw_density
from symx.engine import Harness

ASSUMPTIONS = ["real arithmetic in place of IEEE-754"]


def count(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    return r, len(w)


def seawater(ctx, shape, n=2):
    tk = dict(lo=-10, hi=60, nice=(-8, 50))
    sk = dict(lo=0, hi=60, nice=(0.0, 50))
    use_t, use_s = ctx.choice("given", [(1, 1), (1, 0), (0, 1), (0, 0)])
    kw = {}
    if use_t:
        kw["temperature"] = ctx.vec("t", n, **tk) if shape != "scalar" \
            else ctx.real("t", **tk)
    if use_s:
        kw["salinity"] = ctx.vec("s", n, **sk) if shape == "array" \
            else ctx.real("s", **sk)
    rho, nw = count(density.seawater_1atm_MP81, **kw)
    m = n if (shape == "array" and kw) or (shape == "mixed" and use_t) else 1

    def el(v, i):
        return v[i] if hasattr(v, "__len__") else v

    bad_t = bad_s = False
    for i in range(m):
        t = el(kw.get("temperature", 25.0), i)
        s = el(kw.get("salinity", 35.0), i)
        ctx.eq(f"MP81 {i}", rho[i] if m > 1 else el(rho, 0), sw_density(t, s))
        bad_t = bad_t or bool(t < 0) or bool(t > 40)
        bad_s = bad_s or bool(s < 0.5) or bool(s > 43)
    ctx.true("warning exactly outside range",
             (nw > 0) == (bad_t or bad_s), f"{nw} warnings")


def seawater_args(ctx):
    """positional order: temperature then salinity"""
    t = ctx.real("t", lo=0.001, hi=39.9, nice=(2, 30))
    s = ctx.real("s", lo=0.501, hi=42.9, nice=(5, 40))
    ctx.eq("MP81", density.seawater_1atm_MP81(t, s), sw_density(t, s))


def hcl(ctx):
    kw = {}
    a, b = 0.1, 0.6
    if ctx.flag("HCl given"):
        a = kw["molinity_HCl"] = ctx.real("a", lo=1e-4, hi=10, nice=(0.01, 2))
    if ctx.flag("NaCl given"):
        b = kw["molinity_NaCl"] = ctx.real("b", lo=1e-4, hi=10, nice=(0.01, 2))
    # one of the two may be absent from the titrant
    none = ctx.choice("none of", [None] + sorted(kw))
    if none == "molinity_HCl":
        a = kw[none] = 0.0
        ctx.assume(b >= 1e-4)
    elif none == "molinity_NaCl":
        b = kw[none] = 0.0
        ctx.assume(a >= 1e-4)
    ctx.eq("DSC07", density.HCl_NaCl_25C_DSC07(**kw), hcl_density(a, b))
    if len(kw) == 2:
        ctx.eq("DSC07 positional", density.HCl_NaCl_25C_DSC07(a, b),
               hcl_density(a, b))


def h2so4(ctx):
    m = ctx.real("m", lo=1e-3, hi=10, nice=(0.01, 5))
    rho, nw = count(density.H2SO4_25C_EAIM, m)
    ctx.eq("EAIM", rho, h2so4_density(m))
    bad = bool(m < 0.05) or bool(m > 3)
    ctx.true("warning exactly outside range", (nw > 0) == bad)


def harnesses(tier):
    n = 2 if tier == "quick" else 3
    return [
        Harness("seawater_scalar", seawater, "one point",
                dict(shape="scalar")),
        Harness("seawater_array", seawater, f"{n} points",
                dict(shape="array", n=n)),
        Harness("seawater_mixed", seawater, f"{n} temperatures, 1 salinity",
                dict(shape="mixed", n=n)),
        Harness("seawater_args", seawater_args, "one point"),
        Harness("hcl", hcl, "either, both or no molinity given"),
        Harness("h2so4", h2so4, "all molinities 1e-3..10"),
    ]
