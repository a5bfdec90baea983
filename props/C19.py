"""Dataset, file, Titration and core levels give the same answer."""

import math
import os

import numpy as np
import pandas as pd

import calkulate as calk
from calkulate import files

from props.C16 import nan, same
from props.C17 import MASS, table, titration_file
from props.common import R, F, T0, h_emf, rms, scratch, steps, write_dat
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS and SciPy least squares by contract",
    "the reference is the sequence of documented core functions; salinity, "
    "molinity, certified values, numeric options and (with known pH) "
    "measurements are symbolic",
]
# option groups: numbers are symbolic within (lo, hi, nice lo, nice hi)
SETS = {
    "none": {},
    "salts": dict(total_sulfate=(2e4, 4e4, 28000, 28500),
                  total_borate=(100, 900, 400, 430),
                  total_fluoride=(20, 200, 60, 70)),
    "nutrients": dict(dic=(100, 4000, 1900, 2100),
                      total_phosphate=(0.1, 20, 1, 3),
                      total_silicate=(0.1, 99, 5, 50),
                      total_ammonia=(0.1, 20, 1, 3),
                      total_sulfide=(0.1, 20, 1, 3)),
    "users": dict(total_alpha=(1, 99, 15, 25), k_alpha=1e-6,
                  total_beta=(1, 99, 8, 12), k_beta=1e-4),
    "units": dict(titrant_density=(0.9, 1.2, 1.0, 1.04),
                  temperature_override=(5, 40, 23, 27)),
    "density": dict(titrant_density=(0.9, 1.2, 1.0, 1.04)),
    "titrant": dict(titrant_total_sulfate=(0.1, 2, 0.5, 1),
                    titrant_normality=(0.5, 2.5, 0.99, 1.01)),
    "constants": dict(k_bisulfate=(0.02, 0.9, 0.09, 0.11),
                      k_fluoride=(1e-4, 1e-2, 2e-3, 3e-3),
                      k_carbonic_1=(1e-7, 1e-5, 1e-6, 1.2e-6), dic=2000.0),
    "options": dict(opt_k_carbonic=4, opt_total_borate=2, opt_k_bisulfate=2,
                    opt_k_fluoride=2, dic=2000.0, titrant="H2SO4",
                    molinity_H2SO4=0.05),
    "freshwater": dict(opt_k_carbonic=8, dic=(100, 4000, 1900, 2100)),
    "window": dict(pH_min=2.9, pH_max=3.6, titrant_amount_unit="g",
                   dilute_totals_for_ks=True, dic=2000.0),
}


def values(ctx, name):
    out = {}
    for k, v in SETS[name].items():
        if isinstance(v, tuple):
            v = ctx.real(k, lo=v[0], hi=v[1], nice=v[2:])
        out[k] = v
    return out


def data_file(ctx, d, mode, i=0):
    return titration_file(ctx, d, i, "emf" if mode == "emf" else "pH",
                          free=mode in ("pH", "pH_gran"))


def from_steps(s, std=True):
    """the reported values by name, from a core result"""
    want = {"alkalinity": s.alkalinity, "pH_init": s.pH[0],
            "temperature_init": s.temperature[0],
            "alkalinity_npts": int(s.used.sum())}
    if hasattr(s, "alkalinity_all"):
        some = [v for v, u in zip(s.alkalinity_all, s.used) if u]
        want["alkalinity_std"] = rms(some) if some else math.nan
    if hasattr(s, "emf0"):
        want.update(emf0=s.emf0, gran_emf0=s.ggr.emf0,
                    gran_alkalinity=s.ggr.alkalinity * 1e6)
    return want


EMPTY = {"pH": ("emf0", "gran_emf0", "gran_alkalinity"),
         "pH_gran": ("emf0", "gran_emf0", "gran_alkalinity",
                     "alkalinity_std")}


def hold(ctx, path, mode, override=None):
    """keep the points within the pH window for every EMF0 met on the way"""
    if not ctx.sym:
        return
    dd = calk.read_dat(path)

    def window(x):
        for j in range(len(MASS)):
            t = dd.temperature[j] if override is None else override
            if mode == "pH_adjust":
                e = -dd.measurement[j] * math.log(10) * R * (t + T0) / F
            else:
                e = dd.measurement[j]
            p = -np.log10(h_emf(e, x[1], t))
            ctx.assume(p >= 3)
            ctx.assume(p <= 4)
    ctx.on_lsq = window


def solving(ctx, mode, sets, double=False, what="solve"):
    d = scratch(ctx)
    opts = ctx.choice("options", sets)
    o = values(ctx, opts)
    if mode in ("emf", "pH_adjust"):
        if mode == "emf":
            o["emf0_init"] = 600.0
        o["double"] = double
    name = data_file(ctx, d, mode)
    path = os.path.join(d, name)
    if double:
        hold(ctx, path, mode, o.get("temperature_override"))
    if opts == "window":
        ctx.assume(calk.read_dat(path).measurement[1] <= 3.55)
    sal = ctx.real("salinity", lo=20, hi=45, nice=(33, 36))
    mol = ctx.real("molinity", lo=0.01, hi=1, nice=(0.099, 0.101))
    ma = ctx.real("analyte_mass", lo=0.05, hi=0.3, nice=(0.0995, 0.1005))
    row = dict(file_name=name, file_path=d, salinity=sal, analyte_mass=ma,
               titrant_molinity=mol, solve_mode=mode, **o)
    s = steps(path, sal, dict(o, analyte_mass=ma), mode, mol=mol)
    want = from_steps(s)
    for k in EMPTY.get(mode, ()):
        want[k] = math.nan
    level = ctx.choice("level", ["dataset", "Dataset", "file", "Titration",
                                 "to_Titration", "keywords"])
    if level == "file":
        f = files.solve(name, mol, sal, solve_mode=mode, file_path=d,
                        analyte_mass=ma, **o)
        for k in s._fields:
            if k in ("opt_result", "ggr", "lr", "totals", "k_constants"):
                continue
            ctx.eq("file level " + k, getattr(f, k), getattr(s, k))
        for k in s.totals:
            ctx.eq("file level " + k, f.totals[k], s.totals[k])
        for k in s.k_constants:
            ctx.eq("file level " + k, f.k_constants[k], s.k_constants[k])
        g = from_steps(f)
        for k in g:
            same(ctx, "file level, " + k, g[k], want[k])
        return
    if level in ("Titration", "to_Titration"):
        if level == "Titration":
            tt = calk.Titration(table([row]).iloc[0])
        else:
            df = calk.Dataset(table([row, row], index=["a", "b"]))
            tt = df.to_Titration("b")
        for k, v in want.items():
            if nan(v):
                ctx.true(k + " absent", k not in tt.row or nan(tt.row[k]))
            else:
                ctx.eq(f"Titration {k}", tt[k], v)
                if k != "alkalinity_npts":
                    ctx.eq(f"Titration attribute {k}", getattr(tt, k), v)
        return
    if level == "keywords":
        keep = ("file_name", "salinity", "analyte_mass", "titrant_molinity")
        df = table([{k: row[k] for k in keep}])
        df = calk.solve(df, **{k: v for k, v in row.items() if k not in keep})
    elif level == "Dataset":
        df = calk.Dataset(table([row, row], index=["a", "b"])).solve()
    else:
        df = calk.solve(table([row, row]))
    for i in range(len(df)):
        for k, v in want.items():
            same(ctx, f"{k} of row {i}", df[k].iloc[i], v)
        same(ctx, f"mass of row {i}", df["analyte_mass"].iloc[i], ma)


def calibrating(ctx, mode, sets, double=False):
    d = scratch(ctx)
    opts = ctx.choice("options", sets)
    o = values(ctx, opts)
    if mode in ("emf", "pH_adjust"):
        if mode == "emf":
            o["emf0_init"] = 600.0
        o["double"] = double
    name = data_file(ctx, d, mode)
    path = os.path.join(d, name)
    if double:
        hold(ctx, path, mode, o.get("temperature_override"))
    sal = ctx.real("salinity", lo=20, hi=45, nice=(33, 36))
    cert = ctx.real("certified", lo=500, hi=5000, nice=(2290, 2310))
    ma = ctx.real("analyte_mass", lo=0.05, hi=0.3, nice=(0.0995, 0.1005))
    row = dict(file_name=name, file_path=d, salinity=sal, analyte_mass=ma,
               alkalinity_certified=cert, solve_mode=mode, **o)
    c = steps(path, sal, dict(o, analyte_mass=ma), mode, certified=cert)
    want = c["x"][0]
    level = ctx.choice("level", ["file", "calibrate", "calkulate",
                                 "Dataset.calkulate", "Dataset.calibrate"])
    if level == "file":
        f = files.calibrate(name, cert, sal, solve_mode=mode, file_path=d,
                            analyte_mass=ma, **o)
        ctx.eq("file level", f["x"][0], want)
        return
    df = table([row])
    if level.startswith("Dataset"):
        df = getattr(calk.Dataset(df), level.split(".")[1])()
    else:
        df = getattr(calk, level)(df)
    same(ctx, "molinity here", df["titrant_molinity_here"].iloc[0], want)
    same(ctx, "batch molinity", df["titrant_molinity"].iloc[0], want)
    if "alkalinity" in df and not nan(df["alkalinity"].iloc[0]):
        ctx.eq("offset", df["alkalinity_offset"].iloc[0],
               df["alkalinity"].iloc[0] - cert, trace=False, atol=1e-6)
    else:
        ctx.true("solved after calibrating", False)
    for k in ("alkalinity_npts", "pH_init", "temperature_init"):
        ctx.true(k + " there", k in df and not nan(df[k].iloc[0]))


def offsets(ctx, mode):
    """offset from the certified value, for rows with and without one"""
    d = scratch(ctx)
    rows = []
    for i in range(3):
        rows.append(dict(
            file_name=data_file(ctx, d, mode, i), file_path=d,
            salinity=ctx.real(f"salinity{i}", lo=20, hi=45, nice=(33, 36)),
            analyte_mass=0.1, solve_mode=mode,
            titrant_molinity=ctx.real(f"molinity{i}", lo=0.01, hi=1,
                                      nice=(0.099, 0.101)),
            alkalinity_certified=None if i == 1 else ctx.real(
                f"certified{i}", lo=500, hi=5000, nice=(2290, 2310))))
    df = table(rows, index=["x", "y", "x"])
    calk.solve(df)
    for i, r in enumerate(rows):
        s = steps(os.path.join(d, r["file_name"]), r["salinity"],
                  dict(analyte_mass=0.1), mode, mol=r["titrant_molinity"])
        same(ctx, f"alkalinity {i}", df["alkalinity"].iloc[i], s.alkalinity)
        same(ctx, f"offset {i}", df["alkalinity_offset"].iloc[i],
             math.nan if i == 1 else s.alkalinity - r["alkalinity_certified"])


def volume(ctx, mode):
    """analyte volume instead of mass, at every level; null options"""
    d = scratch(ctx)
    name = data_file(ctx, d, mode)
    sal = ctx.real("salinity", lo=20, hi=43, nice=(33, 36))
    mol = ctx.real("molinity", lo=0.01, hi=1, nice=(0.099, 0.101))
    vol = ctx.real("volume", lo=50, hi=300, nice=(97, 98))
    s = steps(os.path.join(d, name), sal, dict(analyte_volume=vol), mode,
              mol=mol)
    want = from_steps(s)
    row = dict(file_name=name, file_path=d, salinity=sal, analyte_volume=vol,
               titrant_molinity=mol, solve_mode=mode)
    level = ctx.choice("level", ["dataset", "file", "Titration", "solved"])
    nulls = ctx.choice("nulls", [
        (), ("analyte_mass", "temperature_override", "titrant_density", "dic",
             "total_sulfate", "k_bisulfate", "pH_min", "titrant",
             "titrant_amount_unit", "file_type", "titrant_normality",
             "total_phosphate", "opt_k_carbonic")])
    if level != "file":
        for k in nulls:
            row[k] = None if k in ("titrant", "titrant_amount_unit",
                                   "file_type") else math.nan
    if level == "file":
        f = files.solve(name, mol, sal, solve_mode=mode, file_path=d,
                        analyte_volume=vol)
        ctx.eq("file", f.alkalinity, s.alkalinity)
        ctx.eq("file mass", f.analyte_mass, s.analyte_mass)
        return
    df = pd.DataFrame({k: [v] for k, v in row.items()})
    if level in ("dataset", "solved"):
        calk.solve(df)
        for k, v in want.items():
            same(ctx, k, df[k].iloc[0], v)
    if level in ("Titration", "solved"):
        tt = calk.to_Titration(df, 0)
        for k, v in want.items():
            same(ctx, "Titration " + k, tt[k], v)
        same(ctx, "Titration mass", tt["analyte_mass"], s.analyte_mass)


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1800)
    out = []
    names = list(SETS)
    for mode in ("pH", "pH_gran"):
        for part, ss in enumerate((names[:4], names[4:7], names[7:])):
            out.append(H(f"solve_{mode}_{part}", solving, f"3 points, {mode}, "
                         "options " + ", ".join(ss),
                         dict(mode=mode, sets=ss), **lim))
        out.append(H(f"calibrate_{mode}", calibrating, f"3 points, {mode}, "
                     "options " + ", ".join(names[:9]),
                     dict(mode=mode, sets=names[:9]), **lim))
        out.append(H(f"offsets_{mode}", offsets, "3 rows, one without a "
                     "certified value, duplicate index", dict(mode=mode),
                     **lim))
        out.append(H(f"volume_{mode}", volume, "analyte volume, null options",
                     dict(mode=mode), **lim))
    for mode in ("emf", "pH_adjust"):
        for part, ss in enumerate((
                ("none", "salts"), ("titrant", "density" if mode == "emf"
                                    else "units"), ("nutrients", "options"))):
            out.append(H(f"solve_{mode}_{part}", solving, f"3 points, {mode}, "
                         "options " + ", ".join(ss),
                         dict(mode=mode, sets=list(ss)), trace_rtol=1e-3,
                         **lim))
        out.append(H(f"solve_{mode}_double", solving, f"3 points, {mode}, "
                     "solving twice", dict(mode=mode, sets=["none"],
                                           double=True), trace_rtol=1e-3,
                     **lim))
        out.append(H(f"calibrate_{mode}", calibrating, f"3 points, {mode}",
                     dict(mode=mode, sets=["none", "titrant"]),
                     trace_rtol=1e-2, **lim))
    return out
