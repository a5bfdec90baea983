"""Speciation: mass balance and mass action for every species."""

import itertools

from calkulate import simulate

from props.common import GROUPS, TYPICAL, around, pick, reference_species
from symx.engine import Harness

ASSUMPTIONS = ["real arithmetic in place of IEEE-754",
               "totals and constants > 0, pH -2..16"]


def subsets(tier):
    g = list(GROUPS)
    if tier == "thorough":
        return [tuple(c) for r in range(len(g) + 1)
                for c in itertools.combinations(g, r)]
    out = [(), tuple(g)]
    out += [(x,) for x in g]
    out += [tuple(y for y in g if y != x) for x in g]
    return out


def inputs(ctx, sub, n, shape, water=True):
    kw = dict(lo=-2, hi=16, nice=(2.5, 8.5))
    pH = ctx.real("pH", **kw) if shape == "scalar" else ctx.vec("pH", n, **kw)
    tot, ks = {}, {}
    arr = shape == "array"
    for t in sub:
        for name, d in [(t, tot)] + [(k, ks) for k in GROUPS[t]]:
            k = dict(lo=1e-16, hi=1e2, nice=around(TYPICAL[name], 0.5))
            d[name] = ctx.vec(name, n, **k) if arr else ctx.real(name, **k)
    if water:
        k = dict(lo=1e-20, hi=1, nice=around(TYPICAL["k_water"], 0.5))
        ks["k_water"] = ctx.vec("k_water", n, **k) if arr else ctx.real(
            "k_water", **k)
    return pH, tot, ks


def balance(ctx, n, shape, subs, scales=(3, 1, 2)):
    sub = ctx.choice("totals", subs)
    scale = ctx.choice("scale", scales)
    water = True if sub else ctx.flag("water")
    pH, tot, ks = inputs(ctx, sub, n, shape, water)
    c = simulate.alkalinity_components(pH, tot, ks, opt_pH_scale=scale)
    m = 1 if shape == "scalar" else n
    for i in range(m):
        h = 10.0 ** (-(pH if shape == "scalar" else pH[i]))
        ci, ti, ki = pick(c, i), pick(tot, i), pick(ks, i)
        s = f" {i}"
        ctx.eq("[H+] = 10**-pH" + s, ci["H"], h)
        if water:
            ctx.eq("ion product of water" + s, ci["OH"] * h, ki["k_water"])
        if "dic" in ti:
            ctx.eq("DIC balance" + s, ci["CO2"] + ci["HCO3"] + ci["CO3"],
                   ti["dic"])
            ctx.eq("K1" + s, ci["HCO3"] * h, ki["k_carbonic_1"] * ci["CO2"])
            ctx.eq("K2" + s, ci["CO3"] * h, ki["k_carbonic_2"] * ci["HCO3"])
        for t, k, name in (("total_borate", "k_borate", "BOH4"),
                           ("total_silicate", "k_silicate", "H3SiO4"),
                           ("total_ammonia", "k_ammonia", "NH3"),
                           ("total_sulfide", "k_sulfide", "HS")):
            if t in ti:
                ctx.eq(name + s, ci[name] * (h + ki[k]), ti[t] * ki[k])
        if "total_phosphate" in ti:
            h2 = ti["total_phosphate"] - ci["H3PO4"] - ci["HPO4"] - ci["PO4"]
            sc = ti["total_phosphate"]
            ctx.eq("KP1" + s, (h * h2 - ki["k_phosphoric_1"] * ci["H3PO4"])
                   / (sc * (h + ki["k_phosphoric_1"])), 0.0, atol=1e-9)
            ctx.eq("KP2" + s, (h * ci["HPO4"] - ki["k_phosphoric_2"] * h2)
                   / (sc * (h + ki["k_phosphoric_2"])), 0.0, atol=1e-9)
            ctx.eq("KP3" + s, h * ci["PO4"], ki["k_phosphoric_3"]
                   * ci["HPO4"])
        # protonated species present only where the scale needs them
        if "total_fluoride" in ti and scale in (1, 3):
            ctx.eq("HF" + s, ci["HF"] * (ki["k_fluoride"] + h),
                   ti["total_fluoride"] * h)
        else:
            ctx.true("no HF" + s, "HF" not in c or c["HF"] is None)
        if "total_sulfate" in ti and scale == 3:
            ctx.eq("HSO4" + s, ci["HSO4"] * (ki["k_bisulfate"] + h),
                   ti["total_sulfate"] * h)
        else:
            ctx.true("no HSO4" + s, "HSO4" not in c)
        for x in ("alpha", "beta"):
            if "total_" + x in ti:
                _, ref = 0, None
                k, t = ki["k_" + x], ti["total_" + x]
                acid = bool(k >= 10.0 ** -4.5)
                ctx.eq(f"{x} charge" + s, ci["alk_" + x] * (k + h),
                       -t * h if acid else t * k, rtol=1e-7)
    known = {"H", "OH", "CO2", "HCO3", "CO3", "BOH4", "H3PO4", "HPO4", "PO4",
             "H3SiO4", "NH3", "HS", "alk_alpha", "alk_beta", "HF", "HSO4"}
    present = {"OH": water}
    ctx.true("no species without its total", all(
        (k not in c) or any(g in tot for g in need) for k, need in (
            ("CO2", ("dic",)), ("HCO3", ("dic",)), ("CO3", ("dic",)),
            ("BOH4", ("total_borate",)), ("H3PO4", ("total_phosphate",)),
            ("HPO4", ("total_phosphate",)), ("PO4", ("total_phosphate",)),
            ("H3SiO4", ("total_silicate",)), ("NH3", ("total_ammonia",)),
            ("HS", ("total_sulfide",)), ("alk_alpha", ("total_alpha",)),
            ("alk_beta", ("total_beta",)))))


def harnesses(tier):
    n = 2
    subs = subsets(tier)
    plain = [s for s in subs if "total_alpha" not in s and "total_beta"
             not in s]
    b = ("{} subsets of the 10 totals x 3 pH scales; {} point(s); pH -2..16, "
         "totals and constants 1e-16..100")
    out = [
        Harness("scalar", balance, b.format(len(subs), 1),
                dict(n=1, shape="scalar", subs=subs), max_paths=20000,
                time_limit=300 if tier == "quick" else 1500),
        Harness("array", balance, b.format(len(plain), n),
                dict(n=n, shape="array", subs=plain), max_paths=20000,
                time_limit=300 if tier == "quick" else 1500),
        Harness("mixed", balance, b.format(len(plain), n),
                dict(n=n, shape="mixed", subs=plain), max_paths=20000,
                time_limit=300 if tier == "quick" else 1500),
        Harness("array_alpha_beta", balance, b.format(2, n),
                dict(n=n, shape="array",
                     subs=[("total_alpha",), ("total_beta", "dic")])),
    ]
    return out
