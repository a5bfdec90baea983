"""The table of a single-titration object agrees with its solution."""

import math
import os

import numpy as np
import pandas as pd

import calkulate as calk

from props.C16 import nan, same
from props.C17 import table
from props.C19 import data_file, hold, values
from props.common import (F, R, T0, reference_species, scratch, steps,
                          write_dat)
from symx.engine import Harness
from symx.shims import pyco2_sys

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS and SciPy least squares by contract; the speciation from DIC "
    "and pH at given totals and constants is its closed form (mass balance "
    "and mass action), compared with the real function in every replay",
    "reference: the documented core functions one after another; species and "
    "alkalinities from the definitions",
    "salinity, molinity, analyte mass or volume, numeric options and (with "
    "known pH) measurements are symbolic",
]
SPECIES = ("HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4", "HSO4", "HF",
           "H3SiO4", "NH3", "HS", "OH", "alk_alpha", "alk_beta")


def column(ctx, t, name, want):
    if not ctx.true(f"column {name}", name in t.columns):
        return
    got = list(t[name])
    if not ctx.true(f"length of {name}", len(got) == len(want)):
        return
    for j, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, (bool, np.bool_)):
            ctx.true(f"{name} {j}", bool(g) == bool(w), f"{g!r}, {w!r}")
        elif nan(w):
            ctx.true(f"{name} {j}", nan(g), f"{g!r}")
        else:
            ctx.eq(f"{name} {j}", g, w)


def seq(x, n):
    x = np.asarray(x)
    return [x[()]] * n if x.ndim == 0 else list(x)


def check(ctx, tt, s, norm, part):
    """the whole table against core result s"""
    t = tt.titration
    n = len(s.titrant_mass)
    ctx.true("shortcut", tt.t is t)
    tm = list(s.titrant_mass)
    mol, ma = s.titrant_molinity, s.analyte_mass
    if part == "solver":
        column(ctx, t, "titrant_mass", tm)
        column(ctx, t, "temperature", list(s.temperature))
        column(ctx, t, "pH", list(s.pH))
        column(ctx, t, "used", list(s.used))
        if hasattr(s, "ggr"):
            column(ctx, t, "emf", list(s.emf))
            column(ctx, t, "gran_func", list(s.ggr.gfunc))
            column(ctx, t, "gran_emf0", list(s.ggr.emf0s))
            column(ctx, t, "gran_pH", list(s.ggr.pH))
            column(ctx, t, "gran_used", list(s.ggr.used))
        elif hasattr(s, "gfunc"):
            column(ctx, t, "gran_func", list(s.gfunc))
            column(ctx, t, "gran_used", list(s.used))
        for k, v in {**s.totals, **s.k_constants}.items():
            column(ctx, t, k, seq(v, n))
        ctx.eq("analyte mass", tt.analyte_mass, ma)
        ctx.eq("analyte mass item", tt["analyte_mass"], ma)
        return
    if part == "balance":
        column(ctx, t, "dilution_factor", [ma / (ma + m) for m in tm])
        a = s.alkalinity * 1e-6
        column(ctx, t, "alkalinity_from_acid",
               [(a * ma - m * mol * norm) / (ma + m) for m in tm])
        column(ctx, t, "H", [10.0**-p for p in s.pH])
        sal, f = tt.salinity, (pyco2_sys if ctx.sym else None)
        if f is None:
            import PyCO2SYS as pyco2

            f = pyco2.sys
        column(ctx, t, "k_CO2", [
            f(salinity=sal, temperature=v)["k_CO2"] for v in s.temperature])
        return
    for j in range(n):
        tot = {k: seq(v, n)[j] for k, v in s.totals.items()}
        ks = {k: seq(v, n)[j] for k, v in s.k_constants.items()}
        h = 10.0 ** -s.pH[j]
        sp, alk = reference_species(h, tot, ks)
        if part == "species":
            for k in SPECIES:
                if ctx.true(f"column {k}", k in t.columns):
                    ctx.eq(f"{k} {j}", t[k].iloc[j], sp.get(k, 0.0),
                           atol=1e-18)
        else:
            got = t["alkalinity_from_pH"].iloc[j]
            ctx.eq(f"alkalinity_from_pH {j}", got, alk, atol=1e-12)
            ctx.eq(f"alkalinity_estimate {j}",
                   t["alkalinity_estimate"].iloc[j],
                   (got * (ma + tm[j]) + tm[j] * mol * norm) / ma,
                   atol=1e-12)


def build(ctx, row, how, path):
    if how == "row":
        return calk.Titration(table([row]).iloc[0])
    if how == "Dataset":
        return calk.Dataset(table([dict(row, salinity=30.0), row],
                                  index=["a", "b"])).to_Titration("b")
    if how == "solved":
        # an already solved dataset with null options
        null = {k: math.nan for k in (
            "titrant_density", "pH_min", "k_water", "titrant_normality")}
        df = table([{**null, **row}])
        calk.solve(df)
        return calk.to_Titration(df, 0)
    # keyword arguments over the values of the row
    other = dict(row, titrant_molinity=0.2, titrant_normality=3.0)
    return calk.Titration(
        table([other]).iloc[0], titrant_molinity=row["titrant_molinity"],
        titrant_normality=row.get("titrant_normality", 1))


def wide_file(ctx, d, mode):
    """points beyond the pH window on both sides: the Gran estimate and the
    solver use different ones"""
    cols = [[], [], []]
    for j, m in enumerate((2.31e-3, 2.6e-3, 2.8e-3, 3.0e-3, 3.6e-3)):
        h = (m * 0.1 - 0.1 * 2300e-6) / (0.1 + m)
        x = -math.log10(h)
        if mode == "emf":
            x = 600 + math.log(h) * R * (25 + T0) / F
        cols[0].append(m * 1e3)
        cols[1].append(x)
        cols[2].append(24.8 + 0.1 * j)
    write_dat(ctx, os.path.join(d, "wide.dat"), cols)
    return "wide.dat"


def run(ctx, mode, sets, hows=("row",), parts=None, double=False,
        volume=False, wide=False):
    d = scratch(ctx)
    how = ctx.choice("how", hows) if len(hows) > 1 else hows[0]
    opts = ctx.choice("options", sets) if len(sets) > 1 else sets[0]
    o = values(ctx, opts)
    if mode in ("emf", "pH_adjust"):
        if mode == "emf":
            o["emf0_init"] = 600.0
        o["double"] = double
    name = (wide_file if wide else data_file)(ctx, d, mode)
    path = os.path.join(d, name)
    if double:
        hold(ctx, path, mode, o.get("temperature_override"))
    if opts == "window":
        ctx.assume(calk.read_dat(path).measurement[1] <= 3.55)
    sal = ctx.real("salinity", lo=20, hi=43, nice=(33, 36))
    mol = ctx.real("molinity", lo=0.01, hi=1, nice=(0.099, 0.101))
    if volume:
        size = {"analyte_volume": ctx.real("volume", lo=50, hi=300,
                                           nice=(97, 98))}
    else:
        size = {"analyte_mass": ctx.real("analyte_mass", lo=0.05, hi=0.3,
                                         nice=(0.0995, 0.1005))}
    row = dict(file_name=name, file_path=d, salinity=sal,
               titrant_molinity=mol, solve_mode=mode, **size, **o)
    s = steps(path, sal, dict(o, **size), mode, mol=mol)
    tt = build(ctx, row, how, path)
    norm = o.get("titrant_normality", 1)
    for part in parts or ("solver", "balance"):
        check(ctx, tt, s, norm, part)


def access(ctx, where):
    """values by attribute and by item, names in the text form"""
    d = scratch(ctx)
    name = data_file(ctx, d, "pH")
    sal = ctx.real("salinity", lo=20, hi=43, nice=(33, 36))
    mol = ctx.real("molinity", lo=0.01, hi=1, nice=(0.099, 0.101))
    cert = ctx.real("certified", lo=1000, hi=3000, nice=(2290, 2310))
    row = dict(file_name=name, salinity=sal, titrant_molinity=mol,
               analyte_mass=0.1, solve_mode="pH", alkalinity_certified=cert,
               bottle="x1", dic=2000.0)
    if where == "path":
        row["file_path"] = d
    else:
        row["file_name"] = os.path.join(d, name)
        if where == "null":
            row["file_path"] = None
    df = table([row, dict(row, file_path=d, file_name=name)])
    tt = calk.to_Titration(df, 0)
    for k, v in row.items():
        if v is None:
            continue
        if isinstance(v, str):
            ctx.true(k, tt[k] == v and getattr(tt, k) == v)
        else:
            ctx.eq(k + " item", tt[k], v)
            ctx.eq(k + " attribute", getattr(tt, k), v)
    s = steps(os.path.join(d, name), sal, dict(analyte_mass=0.1, dic=2000.0),
              "pH", mol=mol)
    ctx.eq("alkalinity", tt.alkalinity, s.alkalinity)
    ctx.eq("alkalinity item", tt["alkalinity"], s.alkalinity)
    for text in (str(tt), repr(tt)):
        ctx.true("text", text == 'calkulate.Titration for file "'
                 + os.path.join(d, name) + '"', text)
    ctx.true("unknown", not hasattr(tt, "no_such_value"))
    try:
        tt["no_such_value"]
        ctx.true("unknown item", False)
    except (AttributeError, KeyError):
        pass


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1800, strict=True)
    out = []
    plain = ("none", "salts", "titrant")
    for mode in ("pH", "pH_gran"):
        out.append(H(f"table_{mode}", run, f"3 points, {mode}: solver's "
                     "values, balance; from row, keywords, dataset, solved "
                     "dataset",
                     dict(mode=mode, sets=plain + ("window", "freshwater"),
                          hows=("row", "Dataset", "solved", "keywords")),
                     **lim))
        out.append(H(f"volume_{mode}", run, f"3 points, {mode}, analyte "
                     "volume", dict(mode=mode, sets=("none", "density"),
                                    hows=("row", "solved"), volume=True),
                     **lim))
        sets = [("nutrients", "salts"), ("users", "constants")]
        for i, ss in enumerate(sets):
            for part in ("species", "alkalinity"):
                out.append(H(f"{part}_{mode}_{i}", run, f"3 points, {mode}, "
                             "options " + ", ".join(ss),
                             dict(mode=mode, sets=ss, parts=(part,)), **lim))
        out.append(H(f"estimate_{mode}", run, f"3 points, {mode}, titrant "
                     "options and keywords",
                     dict(mode=mode, sets=("titrant", "none"),
                          parts=("alkalinity",), hows=("row", "keywords")),
                     **lim))
    for mode in ("emf", "pH_adjust"):
        for part in ("solver", "balance", "species", "alkalinity"):
            out.append(H(f"{part}_{mode}", run, f"3 points, {mode}",
                         dict(mode=mode, sets=("none", "titrant"),
                              parts=(part,),
                              hows=("row", "keywords")), **lim))
    for mode in ("emf", "pH_adjust", "pH", "pH_gran"):
        out.append(H(f"wide_{mode}", run, f"5 points, {mode}, some outside "
                     "the pH window", dict(mode=mode, sets=("none",),
                                           hows=("row", "solved"),
                                           wide=True), **lim))
    for where in ("path", "absent", "null"):
        out.append(H(f"access_{where}", access, f"file path {where}",
                     dict(where=where), **lim))
    return out
