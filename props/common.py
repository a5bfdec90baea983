"""Shared pieces of the harnesses: reference chemistry written from the
definitions (not from the code under test), realistic input ranges, files."""

import math
import os
import shutil
import tempfile

import numpy as np

F, R, T0 = 96.4853365, 8.3144621, 273.15  # CODATA 2010, kC/mol, J/(K mol)
LN10 = math.log(10)

# total -> the constants it needs
GROUPS = {
    "dic": ("k_carbonic_1", "k_carbonic_2"),
    "total_borate": ("k_borate",),
    "total_phosphate": ("k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3"),
    "total_silicate": ("k_silicate",),
    "total_ammonia": ("k_ammonia",),
    "total_sulfide": ("k_sulfide",),
    "total_alpha": ("k_alpha",),
    "total_beta": ("k_beta",),
    "total_fluoride": ("k_fluoride",),
    "total_sulfate": ("k_bisulfate",),
}
# typical seawater values (mol/kg-sol, free scale)
TYPICAL = {
    "dic": 2.0e-3, "total_borate": 4.2e-4, "total_phosphate": 2e-6,
    "total_silicate": 5e-6, "total_ammonia": 3e-6, "total_sulfide": 2e-6,
    "total_alpha": 2e-5, "total_beta": 1e-5, "total_fluoride": 7e-5,
    "total_sulfate": 2.8e-2,
    "k_carbonic_1": 1.1e-6, "k_carbonic_2": 8e-10, "k_borate": 2e-9,
    "k_phosphoric_1": 2e-2, "k_phosphoric_2": 8e-7, "k_phosphoric_3": 1e-9,
    "k_silicate": 3e-10, "k_ammonia": 5e-10, "k_sulfide": 2.5e-7,
    "k_alpha": 1e-6, "k_beta": 1e-4, "k_fluoride": 2.5e-3,
    "k_bisulfate": 0.1, "k_water": 4.5e-14,
}


def around(v, w=0.05):
    return (v * (1 - w), v * (1 + w))


def pos(ctx, name, w=0.05, n=None, typ=None):
    """positive symbolic quantity named like an entry of TYPICAL"""
    t = TYPICAL[name] if typ is None else typ
    kw = dict(lo=1e-16, hi=1e3, nice=around(t, w), positive=True)
    return ctx.real(name, **kw) if n is None else ctx.vec(name, n, **kw)


def reference_species(h, totals, ks, scale=3):
    """chemical speciation from mass balance and mass action; returns dict
    of contents, plus acceptor-minus-donor alkalinity"""
    sp = {"H": h}
    alk = 0 - h
    if "k_water" in ks:
        sp["OH"] = ks["k_water"] / h
        alk = alk + sp["OH"]
    if "dic" in totals:
        k1, k2 = ks["k_carbonic_1"], ks["k_carbonic_2"]
        d = h * h + k1 * h + k1 * k2
        t = totals["dic"]
        sp["CO2"], sp["HCO3"], sp["CO3"] = (
            t * h * h / d, t * k1 * h / d, t * k1 * k2 / d)
        alk = alk + sp["HCO3"] + 2 * sp["CO3"]
    for tot, k, name in (("total_borate", "k_borate", "BOH4"),
                         ("total_silicate", "k_silicate", "H3SiO4"),
                         ("total_ammonia", "k_ammonia", "NH3"),
                         ("total_sulfide", "k_sulfide", "HS")):
        if tot in totals:
            sp[name] = totals[tot] * ks[k] / (ks[k] + h)
            alk = alk + sp[name]
    if "total_phosphate" in totals:
        k1, k2, k3 = (ks[f"k_phosphoric_{i}"] for i in (1, 2, 3))
        d = h * h * h + k1 * h * h + k1 * k2 * h + k1 * k2 * k3
        t = totals["total_phosphate"]
        sp["H3PO4"] = t * h * h * h / d
        sp["HPO4"] = t * k1 * k2 * h / d
        sp["PO4"] = t * k1 * k2 * k3 / d
        alk = alk - sp["H3PO4"] + sp["HPO4"] + 2 * sp["PO4"]
    for x in ("alpha", "beta"):
        if "total_" + x in totals:
            t, k = totals["total_" + x], ks["k_" + x]
            # zero level of protons at pK 4.5: weaker acids count as bases
            acid = k >= 10.0 ** -4.5
            sp["alk_" + x] = (
                -(t * h / (k + h)) if bool(acid) else t * k / (k + h))
            alk = alk + sp["alk_" + x]
    if scale in (1, 3) and "total_fluoride" in totals:
        sp["HF"] = totals["total_fluoride"] * h / (ks["k_fluoride"] + h)
        alk = alk - sp["HF"]
    if scale == 3 and "total_sulfate" in totals:
        sp["HSO4"] = totals["total_sulfate"] * h / (ks["k_bisulfate"] + h)
        alk = alk - sp["HSO4"]
    return sp, alk


def at(v, i):
    """entry i of an array, or the scalar itself"""
    if isinstance(v, np.ndarray) and v.ndim:
        return v[i]
    return v


def pick(d, i):
    return {k: at(v, i) for k, v in d.items()}


def scratch(ctx):
    base = os.environ.get("CALK_VERIF_SCRATCH") or None
    d = tempfile.mkdtemp(prefix="calk", dir=base)
    ctx.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def num(ctx, x):
    """the literal to put in a file for this number"""
    if ctx.sym:
        from symx.shims import TAGS

        return repr(TAGS.tag(x))
    return repr(float(x))


def dat_lines(ctx, cols, delimiter="\t", header=2):
    out = [f"header {i}" for i in range(header)]
    for row in zip(*cols):
        out.append(delimiter.join(num(ctx, v) for v in row))
    return "\n".join(out) + "\n"


def write_dat(ctx, path, cols, **k):
    with open(path, "w") as f:
        f.write(dat_lines(ctx, cols, **k))
    return path


def hplus(ctx, pH):
    """10**-pH"""
    return 10.0 ** (-pH)


# --- realistic titrations ----------------------------------------------------
MA, MOL, ALK = 0.1, 0.1, 2300e-6


def ideal_h(tm, totals, ks, ma=MA, mol=MOL, alk=ALK, norm=1.0):
    """[H+] of a mixture whose alkalinity balance is exact (bisection)"""
    f = ma / (ma + tm)
    tot = {k: v * f for k, v in totals.items()}
    target = alk * f - tm * mol * norm / (ma + tm)
    lo, hi = -12.0, -0.5
    for _ in range(200):
        m = 0.5 * (lo + hi)
        _, a = reference_species(10.0**m, tot, ks)
        if a > target:
            lo = m
        else:
            hi = m
    return 10.0**lo


def lsq(ctx, fun, x0):
    """reference least squares: the contract in symbolic mode, SciPy with
    tight tolerances (from x0) in concrete mode"""
    if ctx.sym:
        from symx.shims import least_squares

        return least_squares(fun, x0).x
    from scipy.optimize import least_squares

    s = np.array([max(abs(float(v)), 1e-6) for v in x0])

    def g(y):
        return 1e6 * np.array([float(v) for v in fun(y * s)])

    r = least_squares(g, np.array([float(v) for v in x0]) / s, xtol=1e-15,
                      ftol=1e-15, gtol=1e-15)
    return r.x * s


def rms(values):
    """population standard deviation"""
    n = len(values)
    m = sum(values) / n
    v = sum((x - m) * (x - m) for x in values) / n
    return v**0.5


def h_emf(emf, emf0, t):
    """Nernst: [H+] from EMF"""
    x = (emf - emf0) * F / (R * (t + T0))
    return math.exp(x) if isinstance(x, float) else np.exp(x)


def check_min(ctx, label, f, alkalinity, emf0, alk_tol=1e-4, emf_tol=0.2,
              start=None, noise=5e-6, slack=3e-7, alks=(3e-4, 6e-3)):
    """(alkalinity, emf0) minimises the reference objective f.  Concretely:
    judged only for data that some realistic alkalinity explains well, and a
    failure is a point that is both away from a tightly converged minimum and
    worse than it by more than an early-stopped optimiser can be."""
    if ctx.sym:
        x = lsq(ctx, f, [alkalinity * 1e-6, emf0])
        ctx.eq(label + ": alkalinity", alkalinity, x[0] * 1e6, trace=False)
        ctx.eq(label + ": EMF0", emf0, x[1], trace=False)
        return

    def cost(y):
        with np.errstate(all="ignore"):
            c = math.sqrt(np.mean(np.square(np.asarray(f(y), dtype=float))))
        return c if c == c else math.inf

    a = alkalinity * 1e-6
    best = None
    for x0 in ([a, emf0], start or [ALK, emf0], [ALK, emf0 + 5]):
        try:
            x = lsq(ctx, f, x0)
        except (ValueError, OverflowError):
            continue
        c = cost(x)
        if best is None or c < best[0]:
            best = (c, x)
    if best is None:
        return
    c, x = best
    ctx.checked += 1
    if not (c < noise and alks[0] < x[0] < alks[1]):
        return
    far = not (abs(a - x[0]) <= alk_tol * abs(x[0])
               and abs(emf0 - x[1]) <= emf_tol)
    worse = not cost([a, emf0]) - c <= slack
    if far and worse:
        ctx._bad(label + ": alkalinity",
                 f"({float(alkalinity)!r}, {float(emf0)!r}), minimum at "
                 f"({float(x[0]) * 1e6!r}, {float(x[1])!r})")


def sorted_gran(ctx, w, legacy=False):
    """Gran function increasing with every point above 10 % of the largest
    (and, for the legacy rule, all but the last below 90 %): one shape for the
    Gran guess"""
    exp = (lambda v: v.exp()) if ctx.sym else np.exp
    n = len(w["tm"])
    g = [(w["tm"][i] + w["ma"]) * exp(w["emf"][i] * F / (
        R * (w["temp"][i] + T0))) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(g[i] < g[i + 1])
        if legacy:
            ctx.assume(g[i] < 0.9 * g[-1])
    ctx.assume(g[0] > 0.1 * g[-1])
    return g


# --- the processing steps, one by one ---------------------------------------
STEP_KEYS = {
    "read": ("col_measurement", "col_temperature", "col_titrant_amount",
             "delimiter", "encoding", "file_type", "n_cols", "skip_header"),
    "units": ("analyte_mass", "analyte_volume", "molinity_H2SO4",
              "molinity_HCl", "molinity_NaCl", "temperature_override",
              "titrant", "titrant_amount_unit", "titrant_density"),
    "totals": ("dic", "dilute_totals_for_ks", "opt_k_bisulfate",
               "opt_k_carbonic", "opt_k_fluoride", "opt_pH_scale",
               "opt_total_borate", "total_alpha", "total_ammonia",
               "total_beta", "total_borate", "total_fluoride",
               "total_phosphate", "total_silicate", "total_sulfate",
               "total_sulfide", "k_alpha", "k_ammonia", "k_beta",
               "k_bisulfate", "k_borate", "k_carbonic_1", "k_carbonic_2",
               "k_fluoride", "k_phosphoric_1", "k_phosphoric_2",
               "k_phosphoric_3", "k_silicate", "k_sulfide", "k_water"),
    "titrant": ("titrant_total_fluoride", "titrant_total_phosphate",
                "titrant_total_sulfate"),
    "emf": ("alkalinity_init", "double", "emf0_init", "gran_logic", "pH_max",
            "pH_min", "titrant_normality"),
    "ph": ("pH_max", "pH_min", "titrant_normality"),
}


def steps(path, sal, opt, mode="emf", mol=None, certified=None):
    """solve (mol given) or calibrate (certified given) one file by calling
    the documented core functions one after another"""
    import calkulate as calk
    from calkulate import convert, core

    def sub(step):
        return {k: opt[k] for k in STEP_KEYS[step] if k in opt}

    dd = calk.read_dat(path, **sub("read"))
    cv = convert.amount_units(dd, sal, **sub("units"))
    tot, ks = core.totals_ks(cv, **sub("totals"))
    x = cv.measurement
    mode = mode.lower()
    kw = sub("emf" if mode in ("emf", "ph_adjust") else "ph")
    if mode == "ph_adjust":
        x = convert.pH_to_emf(x, 0, cv.temperature)
        kw["emf0_init"] = 0
    name = {"emf": "emf", "ph_adjust": "emf", "ph": "pH",
            "ph_gran": "pH_gran"}[mode]
    args = (cv.titrant_mass, x, cv.temperature, cv.analyte_mass)
    if certified is None:
        tot = core.add_titrant_totals(
            tot, cv.titrant_mass, cv.analyte_mass, mol,
            titrant_molinity_prev=0, **sub("titrant"))
        return getattr(core, "solve_" + name)(mol, *args, tot, ks, **kw)
    if "titrant_molinity_init" in opt:
        kw["titrant_molinity_init"] = opt["titrant_molinity_init"]
    return getattr(core, "calibrate_" + name)(
        certified, *args, tot, ks, **kw, **sub("titrant"))
