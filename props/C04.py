"""Alkalinity = proton acceptors minus proton donors."""

from calkulate import simulate

from props.C03 import inputs, subsets
from props.common import pick, reference_species
from symx.engine import Harness

ASSUMPTIONS = ["real arithmetic in place of IEEE-754",
               "totals and constants > 0, pH -2..16"]


def alk(ctx, n, shape, subs, scales=(3, 1, 2)):
    sub = ctx.choice("totals", subs)
    scale = ctx.choice("scale", scales)
    pH, tot, ks = inputs(ctx, sub, n, shape, True)
    kw = {} if scale == 3 and ctx.flag("default scale") else dict(
        opt_pH_scale=scale)
    a = simulate.alkalinity(pH, tot, ks, **kw)
    comp = simulate.alkalinity_components(pH, tot, ks, **kw)
    m = 1 if shape == "scalar" else n
    for i in range(m):
        h = 10.0 ** (-(pH if shape == "scalar" else pH[i]))
        _, ref = reference_species(h, pick(tot, i), pick(ks, i), scale)
        ai = a if shape == "scalar" else a[i]
        ctx.eq(f"acceptors - donors {i}", ai, ref, rtol=1e-7, atol=1e-13)
        ci = pick(comp, i)
        bal = 0
        for k, v in ci.items():
            z = {"H": -1, "CO2": 0, "CO3": 2, "PO4": 2, "H3PO4": -1, "HF": -1,
                 "HSO4": -1}.get(k, 1)
            bal = bal + z * v
        ctx.eq(f"sum of components {i}", ai, bal, rtol=1e-7, atol=1e-13)


def additive(ctx):
    """each system contributes independently of the others"""
    pH, tot, ks = inputs(ctx, ("dic", "total_borate", "total_phosphate",
                               "total_fluoride", "total_sulfate"), 1,
                         "scalar", True)
    whole = simulate.alkalinity(pH, tot, ks)
    water = simulate.alkalinity(pH, {}, ks)
    parts = water
    for k in tot:
        parts = parts + simulate.alkalinity(pH, {k: tot[k]}, ks) - water
    ctx.eq("sum over systems", whole, parts, atol=1e-13)


def missing(ctx, n):
    """a missing measurement or total gives a missing alkalinity, there only"""
    pH, tot, ks = inputs(ctx, ("dic", "total_borate", "total_sulfate"), n,
                         "array", True)
    j = ctx.choice("point", range(n))
    what = ctx.choice("missing", ["pH", *tot, "k_water"])
    arr = pH if what == "pH" else tot[what] if what in tot else ks[what]
    arr[j] = float("nan")
    a = simulate.alkalinity(pH, tot, ks)
    for i in range(n):
        if i == j:
            ctx.true("missing", isinstance(a[i], float)
                     and bool(a[i] != a[i]), f"{a[i]!r} for NaN {what}")
        else:
            _, ref = reference_species(10.0 ** -pH[i], pick(tot, i),
                                       pick(ks, i), 3)
            ctx.eq(f"other point {i}", a[i], ref, rtol=1e-7, atol=1e-13)


def scale_check(ctx):
    """scales other than Total, Seawater, Free are refused"""
    s = ctx.choice("scale", [0, 4, 5, -1])
    pH, tot, ks = inputs(ctx, ("dic",), 1, "scalar", True)
    try:
        simulate.alkalinity(pH, tot, ks, opt_pH_scale=s)
        ok = False
    except Exception:
        ok = True
    ctx.true("invalid scale refused", ok)


def harnesses(tier):
    subs = subsets(tier)
    plain = [s for s in subs if "total_alpha" not in s and "total_beta"
             not in s]
    t = 300 if tier == "quick" else 1500
    b = ("{} subsets of the 10 totals x 3 pH scales; {} point(s); pH -2..16, "
         "totals and constants 1e-16..100")
    return [
        Harness("scalar", alk, b.format(len(subs), 1),
                dict(n=1, shape="scalar", subs=subs), 20000, t),
        Harness("array", alk, b.format(len(plain), 2),
                dict(n=2, shape="array", subs=plain), 20000, t),
        Harness("mixed", alk, b.format(len(plain), 2),
                dict(n=2, shape="mixed", subs=plain), 20000, t),
        Harness("array_alpha_beta", alk, b.format(2, 2),
                dict(n=2, shape="array",
                     subs=[("total_alpha",), ("total_beta", "dic")])),
        Harness("additive", additive, "5 systems, one point"),
        Harness("missing", missing, "3 points, one value NaN", dict(n=3)),
        Harness("scale_check", scale_check, "scales -1, 0, 4, 5"),
    ]
