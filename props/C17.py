"""Rows of a dataset are independent; a bad row spoils only itself."""

import math
import os
import shutil

import numpy as np
import pandas as pd

import calkulate as calk

from props.C16 import nan, same
from props.common import F, R, T0, scratch, write_dat
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS and SciPy least squares by contract (functions of their "
    "arguments, the same for a row alone and among others)",
    "each row of the dataset is compared with a dataset of that row alone; "
    "pH measurements, molinities, salinities, certified values and overrides "
    "symbolic; kinds of rows and their order explored exhaustively",
]
COLS = ("alkalinity", "alkalinity_npts", "alkalinity_std", "analyte_mass",
        "emf0", "gran_alkalinity", "gran_emf0", "pH_init",
        "temperature_init", "titrant_molinity")
MASS = [2.55e-3, 2.75e-3, 2.95e-3]


def titration_file(ctx, folder, i, mode, tag="", free=True):
    """three points; the pH measurements of the first two are symbolic"""
    cols = [[], [], []]
    for j, m in enumerate(MASS):
        m = m + 1e-6 * i
        h = (m * 0.1 - 0.1 * 2300e-6) / (0.1 + m)
        ph = -math.log10(h)
        if mode == "emf":
            x = 600 + math.log(h) * R * (25 + T0) / F
        elif j < 2 and free:
            x = ctx.real(f"pH{tag}{i}_{j}", lo=3.01, hi=3.99,
                         nice=(ph - 0.005, ph + 0.005))
        else:
            x = round(ph, 6)
        cols[0].append(m * 1e3)
        cols[1].append(x)
        cols[2].append(24.0 + i + 0.1 * j)
    name = f"{tag}{i}.dat"
    write_dat(ctx, os.path.join(folder, name), cols)
    return name


def table(rows, index=None):
    keys = list(dict.fromkeys(k for r in rows for k in r))
    d = {}
    for k in keys:
        vals = [r.get(k, None) for r in rows]
        text = any(isinstance(v, str) for v in vals)
        d[k] = [(None if text else math.nan) if v is None else v
                for v in vals]
    return pd.DataFrame(d, index=index)


def alone(row, do, kw, ctx=None):
    """the row by itself, on a copy of its folder under a new name"""
    if ctx is not None and row.get("file_path"):
        new = os.path.join(scratch(ctx), "copy")
        shutil.copytree(row["file_path"], new)
        row = dict(row, file_path=new)
    df = table([row])
    do(df, **{k: dict(v) if isinstance(v, dict) else v
              for k, v in kw.items()})
    return df.iloc[0]


def compare(ctx, rows, kinds, index, do, kw, cols=COLS, subset=None):
    n = len(rows)
    df = table(rows, index=index)
    own = [dict(r) for r in rows]
    do(df, **{k: dict(v) if isinstance(v, dict) else v
              for k, v in kw.items()})
    ctx.true("rows", len(df) == n and list(df.index) == list(
        index if index is not None else range(n)))
    for i in range(n):
        ref = alone(own[i], do, kw, ctx)
        for c in cols:
            if c in ref.index:
                same(ctx, f"{c} of row {i}", df[c].iloc[i], ref[c])
        for c in own[i]:
            if isinstance(own[i][c], str):
                ctx.true(f"{c} of row {i} kept", df[c].iloc[i] == own[i][c])
        if kinds[i] == "any":
            pass
        elif kinds[i] == "ok":
            ctx.true(f"row {i} solved", not nan(df["alkalinity"].iloc[i]))
        else:
            ctx.true(f"row {i} empty", nan(df["alkalinity"].iloc[i])
                     and int(df["alkalinity_npts"].iloc[i]) == 0)
            ctx.true(f"row {i} no EMF0", nan(df["emf0"].iloc[i]))


def make_row(ctx, d, i, kind, mode, calibrating, free=True):
    r = {"salinity": ctx.real(f"salinity{i}", lo=5, hi=45, nice=(33, 36)),
         "analyte_mass": 0.1 + 0.001 * i, "solve_mode": mode,
         "file_path": d, "file_good": kind != "bad"}
    if mode == "emf":
        r.update(emf0_init=600.0, double=False)
    if kind == "missing":
        r["file_name"] = f"none{i}.dat"
    elif kind == "garbage":
        r["file_name"] = f"bad{i}.dat"
        with open(os.path.join(d, r["file_name"]), "w") as f:
            f.write("header\nheader\nnot a number\n\x00\x01")
    elif kind == "empty":
        r["file_name"] = f"empty{i}.dat"
        open(os.path.join(d, r["file_name"]), "w").close()
    elif kind == "window":
        # no point within the pH limits
        r["file_name"] = titration_file(ctx, d, i, mode, free=free)
        r.update(pH_min=10.0, pH_max=11.0)
    elif kind == "mode":
        r["file_name"] = titration_file(ctx, d, i, mode, free=free)
        r["solve_mode"] = "nonsense"
    else:
        r["file_name"] = titration_file(ctx, d, i, mode, free=free)
    if calibrating:
        if kind != "nomolinity":
            r["alkalinity_certified"] = ctx.real(
                f"certified{i}", lo=500, hi=5000, nice=(2290, 2310))
        else:
            r["alkalinity_certified"] = None
        r["analysis_batch"] = f"batch{i}"
    else:
        r["titrant_molinity"] = None if kind == "nomolinity" else ctx.real(
            f"molinity{i}", lo=0.01, hi=1, nice=(0.099, 0.101))
    return r


def faults(ctx, modes, kinds, calibrating=False, index=None, kw=None):
    d = scratch(ctx)
    kk = [ctx.choice(f"kind{i}", ks) if len(ks) > 1 else ks[0]
          for i, ks in enumerate(kinds)]
    rows = [make_row(ctx, d, i, k, m, calibrating)
            for i, (k, m) in enumerate(zip(kk, modes))]
    order = ctx.choice("order", [list(range(len(rows))),
                                 list(range(len(rows)))[::-1]])
    rows = [rows[j] for j in order]
    kk = [kk[j] for j in order]
    do = calk.calibrate if calibrating else calk.solve
    compare(ctx, rows, kk, index, do, kw or {})


OPTIONS = {
    "temperature_override": (24.0, 26.0), "dic": (1900, 2100),
    "total_phosphate": (1, 3), "total_silicate": (5, 50),
    "total_sulfate": (28000, 28500), "total_borate": (400, 430),
    "total_fluoride": (60, 70), "titrant_normality": (0.99, 1.01),
    "titrant_density": (1.01, 1.03), "k_bisulfate": (0.09, 0.11),
    "k_fluoride": (2e-3, 3e-3), "molinity_HCl": (0.09, 0.11),
}


def options(ctx, groups, n=3, extra=None, calibrating=False, kw=None):
    """every row has its own options, null in the others"""
    d = scratch(ctx)
    rows = []
    for i in range(n):
        mode = "pH"
        r = make_row(ctx, d, i, "ok", mode, calibrating)
        for k in groups[i % len(groups)]:
            lo, hi = OPTIONS[k]
            r[k] = ctx.real(f"{k}{i}", lo=lo * 0.5, hi=hi * 2, nice=(lo, hi))
        r.update((extra or [{}] * n)[i])
        rows.append(r)
    if ctx.flag("reversed"):
        rows = rows[::-1]
    do = calk.calibrate if calibrating else calk.solve
    compare(ctx, rows, ["ok"] * n, None, do, kw or {})


def shared(ctx, calibrating=False, mode="pH"):
    """rows that use one file, and files of one name in different folders"""
    d = scratch(ctx)
    other = os.path.join(d, "other")
    os.mkdir(other)
    rows = [make_row(ctx, d, i, "ok", mode, calibrating) for i in range(3)]
    rows[1]["file_name"] = rows[0]["file_name"]
    rows[2]["file_name"] = titration_file(ctx, other, 0, mode, tag="x")
    os.rename(os.path.join(other, rows[2]["file_name"]),
              os.path.join(other, rows[0]["file_name"]))
    rows[2]["file_name"] = rows[0]["file_name"]
    rows[2]["file_path"] = other
    what = ctx.choice("second", ["salinity", "mass", "window", "override",
                                 "columns"])
    if what != "salinity":
        rows[1]["salinity"] = rows[0]["salinity"]
    if what == "mass":
        rows[1]["analyte_mass"] = 0.11
    else:
        rows[1]["analyte_mass"] = rows[0]["analyte_mass"]
    if what == "window":
        rows[1]["pH_max"] = 3.5
    if what == "columns":
        rows[1]["col_titrant_amount"] = 2
        rows[1]["titrant_density"] = 0.1
    if what == "override":
        rows[1]["temperature_override"] = ctx.real(
            "override", lo=1, hi=40, nice=(20, 24))
    do = calk.calibrate if calibrating else calk.solve
    kinds = ["ok", "any" if what in ("window", "columns") else "ok", "ok"]
    compare(ctx, rows, kinds, None, do, {})


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1800)
    bad = ["missing", "garbage", "bad", "nomolinity"]
    out = []
    for k in ("ok", "missing", "garbage", "empty", "bad", "nomolinity",
              "window", "mode"):
        out.append(H(f"solve_{k}", faults, f"3 rows with known pH, middle one "
                     f"{k}, last one ok or faulty; both orders",
                     dict(modes=["pH", "pH", "pH"],
                          kinds=[["ok"], [k], ["ok", "missing"]]), **lim))
    out.append(H("calibrate_faults", faults, "3 rows, own batches, each ok or "
                 "faulty", dict(modes=["pH"] * 3, calibrating=True,
                                kinds=[["ok"], bad + ["mode"], ["ok"]]),
                 **lim))
    out.append(H("first_fails", faults, "first row faulty", dict(
        modes=["pH", "pH_gran"], kinds=[bad + ["window"], ["ok"]]), **lim))
    out.append(H("modes", faults, "4 rows with four solving modes, unsorted "
                 "duplicate index", dict(
                     modes=["pH", "emf", "pH_gran", "pH_adjust"],
                     kinds=[["ok"]] * 4, index=[5, 2, 5, 0],
                     kw=dict(double=False)), trace_rtol=10, **lim))
    out.append(H("text_index", faults, "3 rows, text index, one bad", dict(
        modes=["pH", "pH", "pH_gran"], kinds=[["ok"], ["bad", "ok"], ["ok"]],
        index=["c", "a", "b"]), **lim))
    out.append(H("read_options", faults, "3 rows, old-style options as "
                 "keywords, one row missing", dict(
                     modes=["pH"] * 3, kinds=[["ok"], ["missing"], ["ok"]],
                     kw=dict(read_dat_kwargs=dict(skip_header=2,
                                                  delimiter="\t"),
                             pH_range=(2.5, 4.5))), **lim))
    for mode in ("pH", "pH_gran"):
        out.append(H(f"one_file_{mode}", shared, "3 rows, two on one file and "
                     "one on a file of the same name elsewhere",
                     dict(mode=mode), **lim))
    out.append(H("one_file_calibrate", shared, "3 rows, two on one file and "
                 "one on a file of the same name elsewhere, calibrating",
                 dict(calibrating=True), **lim))
    gs = [["temperature_override", "dic"], ["total_phosphate",
          "total_sulfate"], ["titrant_density", "k_bisulfate"]]
    out.append(H("options", options, "3 rows with different options",
                 dict(groups=gs), **lim))
    gs = [["total_borate", "molinity_HCl"], [], ["titrant_normality",
          "k_fluoride", "total_fluoride", "total_silicate"]]
    out.append(H("options_2", options, "3 rows with different options",
                 dict(groups=gs), **lim))
    out.append(H("options_calibrate", options, "3 rows with different "
                 "options, calibrating", dict(groups=[
                     ["dic", "total_sulfate"], [],
                     ["temperature_override", "titrant_normality"]],
                     calibrating=True), **lim))
    ex = [dict(titrant="H2SO4", opt_k_carbonic=4.0, titrant_total_sulfate=1.0),
          dict(titrant_amount_unit="g"),
          dict(pH_min=2.5, pH_max=4.5, opt_total_borate=2.0,
               opt_k_bisulfate=2.0)]
    out.append(H("settings", options, "3 rows with different settings",
                 dict(groups=[[]], extra=ex), **lim))
    out.append(H("settings_calibrate", options, "3 rows with different "
                 "settings, calibrating",
                 dict(groups=[[]], extra=ex, calibrating=True), **lim))
    return out
