"""Options: row value over keyword argument over default; null = not given."""

import math
import os

import numpy as np
import pandas as pd

import calkulate as calk

from props.C16 import nan, same
from props.C17 import MASS, table
from props.common import F, R, T0, TYPICAL, h_emf, scratch, steps, write_dat
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS and SciPy least squares by contract",
    "expected results: the documented core functions called one after "
    "another with the value that takes precedence, or without the option",
    "one option (or group) at a time; numeric values symbolic, places (row, "
    "keyword, both, null in the row) explored exhaustively; a second row "
    "always has its own value",
]


def data(ctx, folder, mode, layout="plain"):
    cols = [[], [], []]
    for j, m in enumerate(MASS):
        h = (m * 0.1 - 0.1 * 2300e-6) / (0.1 + m)
        x = -math.log10(h)
        if mode == "emf":
            x = 600 + math.log(h) * R * (25 + T0) / F
        cols[0].append(round(m * 1e3, 5))
        cols[1].append(round(x, 6))
        cols[2].append(24.5 + 0.1 * j)
    name = layout + ".dat"
    path = os.path.join(folder, name)
    if layout == "plain":
        write_dat(ctx, path, cols)
    elif layout == "comma":
        write_dat(ctx, path, cols, delimiter=",")
    elif layout == "header":
        # one more header line, and a line of data if only two are skipped
        with open(path, "w") as f:
            f.write("a\nb\n1.0\t3.5\t20.0\n")
            for r in zip(*cols):
                f.write("\t".join(map(repr, r)) + "\n")
    elif layout == "columns":
        # more columns: index, mass, temperature, measurement, other
        with open(path, "w") as f:
            f.write("a\nb\n")
            for j, r in enumerate(zip(*cols)):
                f.write("\t".join(map(repr, (
                    r[0] + 0.01, r[1] + 0.02, r[2] + 0.5, *r,
                    r[1] + 0.03, r[2] + 1.0))) + "\n")
    elif layout == "pclims":
        with open(path, "w") as f:
            f.write("report\nreport\n")
            for j, r in enumerate(zip(*cols)):
                f.write("\t".join(map(repr, (
                    float(j), r[0], r[1], 0.1, 0.2, r[2]))) + "\n")
            f.write("end\n")
    return name


# numeric options: (range, nice range)
NUM = {
    "temperature_override": (5, 40, 23.5, 26),
    "titrant_density": (0.9, 1.2, 1.0, 1.05),
    "molinity_HCl": (0.05, 0.2, 0.09, 0.11),
    "molinity_NaCl": (0.3, 0.9, 0.5, 0.7),
    "titrant_normality": (0.5, 2.5, 0.98, 1.02),
    "dic": (100, 4000, 1900, 2100),
    "titrant_total_sulfate": (0.1, 2, 0.5, 1),
    "titrant_total_phosphate": (0.1, 2, 0.5, 1),
    "titrant_total_fluoride": (0.1, 2, 0.5, 1),
}
for _k, _v in TYPICAL.items():
    if _k.startswith("total_"):
        NUM[_k] = (_v * 1e5, _v * 1e7, _v * 0.9e6, _v * 1.1e6)
    elif _k.startswith("k_"):
        NUM[_k] = (_v * 0.1, _v * 10, _v * 0.9, _v * 1.1)
# what has to be there for the option to matter
NEEDS = {
    "k_alpha": dict(total_alpha=20.0), "k_beta": dict(total_beta=10.0),
    "total_alpha": dict(k_alpha=1e-6), "total_beta": dict(k_beta=1e-4),
    "k_ammonia": dict(total_ammonia=3.0),
    "k_carbonic_1": dict(dic=2000.0), "k_carbonic_2": dict(dic=2000.0),
    "k_phosphoric_1": dict(total_phosphate=2.0),
    "k_phosphoric_2": dict(total_phosphate=2.0),
    "k_phosphoric_3": dict(total_phosphate=2.0),
    "k_silicate": dict(total_silicate=5.0),
    "k_sulfide": dict(total_sulfide=2.0),
    "molinity_HCl": dict(titrant="HCl"), "molinity_NaCl": dict(titrant="HCl"),
    "molinity_H2SO4": dict(titrant="H2SO4"),
    "titrant_total_phosphate": dict(total_phosphate=2.0),
}
NUM["molinity_H2SO4"] = (0.01, 0.5, 0.04, 0.06)
# settings: (row value, second row's value, keyword value)
SET = {
    "opt_k_carbonic": (4, 14, 10), "opt_k_bisulfate": (2, 1, 2),
    "opt_k_fluoride": (2, 1, 2), "opt_total_borate": (2, 1, 2),
    "opt_pH_scale": (1, 3, 1), "dilute_totals_for_ks": (True, False, True),
    "titrant": ("H2SO4", "HCl", "H2SO4"),
    "titrant_amount_unit": ("g", "ml", "kg"),
    "pH_min": (3.25, 2.5, 3.3), "pH_max": (3.5, 4.5, 3.55),
}
READ = {
    # option: (layout, right value, other value)
    "delimiter": ("comma", ",", ";"), "skip_header": ("header", 3, 4),
    "col_titrant_amount": ("columns", 3, 0),
    "col_measurement": ("columns", 4, 1),
    "col_temperature": ("columns", 5, 2),
    "file_type": ("pclims", "pclims", "genfromtxt"),
    "read_dat_method": ("pclims", "pclims", "genfromtxt"),
}
PLACES = ("both", "null", "null+kwarg", "kwarg")
CMP = ("alkalinity", "alkalinity_npts", "alkalinity_std", "pH_init",
       "temperature_init")
# keyword spellings of older versions
OLD = {"pH_range": ("pH_min", "pH_max")}


def place(where, vals):
    """-> (row 0, row 1, keyword or None, effective 0, effective 1); None in
    a row: null; the string "absent": no column"""
    r0, r1, k = vals
    if where == "both":
        return (r0, r1), (k,), (r0, r1)
    if where == "null":
        return (None, r1), (), (None, r1)
    if where == "null+kwarg":
        return (None, r1), (k,), (k, r1)
    return None, (k,), (k, k)


def base_row(ctx, d, name, mode, i, calibrating):
    r = {"file_name": name, "file_path": d, "analyte_mass": 0.1 + 0.002 * i,
         "salinity": ctx.real(f"salinity{i}", lo=20, hi=45, nice=(33, 36)),
         "solve_mode": mode}
    if calibrating:
        r["alkalinity_certified"] = ctx.real(
            f"certified{i}", lo=500, hi=5000, nice=(2200, 2400))
        r["analysis_batch"] = i
    else:
        r["titrant_molinity"] = ctx.real(
            f"molinity{i}", lo=0.01, hi=1, nice=(0.09, 0.11))
    return r


def judge(ctx, rows, eff, kw, calibrating, mode):
    """run the dataset and compare with the steps"""
    df = table(rows)
    (calk.calibrate if calibrating else calk.solve)(df, **kw)
    for i, r in enumerate(rows):
        path = os.path.join(r["file_path"], r["file_name"])
        o = {k: v for k, v in eff[i].items() if v is not None}
        o["analyte_mass"] = r["analyte_mass"]
        m = o.pop("solve_mode", mode)
        try:
            if calibrating:
                c = steps(path, r["salinity"], o, m,
                          certified=r["alkalinity_certified"])
                want = {"titrant_molinity_here": c["x"][0]}
            else:
                s = steps(path, r["salinity"], o, m,
                          mol=r["titrant_molinity"])
                want = {"alkalinity": s.alkalinity, "pH_init": s.pH[0],
                        "temperature_init": s.temperature[0],
                        "alkalinity_npts": int(s.used.sum())}
                if hasattr(s, "emf0"):
                    want.update(emf0=s.emf0, gran_emf0=s.ggr.emf0,
                                gran_alkalinity=s.ggr.alkalinity * 1e6)
        except (ValueError, IndexError, TypeError) as e:
            if type(e).__name__ == "Unsupported":
                raise
            want = {"titrant_molinity_here" if calibrating else "alkalinity":
                    math.nan}
        for k, v in want.items():
            same(ctx, f"{k} of row {i}", df[k].iloc[i], v)


def finish(ctx, rows, eff, kw, opt, vals, where, calibrating, mode):
    col, kws, e = place(where, vals)
    if col is not None:
        for r, v in zip(rows, col):
            r[opt] = v
    if kws:
        kw[opt] = kws[0]
    for d, v in zip(eff, e):
        d[opt] = v


def numeric(ctx, opts, calibrating, mode="pH"):
    d = scratch(ctx)
    opt = ctx.choice("option", opts)
    where = ctx.choice("place", PLACES)
    name = data(ctx, d, mode)
    rows = [base_row(ctx, d, name, mode, i, calibrating) for i in range(2)]
    lo, hi, a, b = NUM[opt]
    vals = [ctx.real(f"{opt}_{x}", lo=lo, hi=hi, nice=(a, b))
            for x in ("row0", "row1", "keyword")]
    eff = [{}, {}]
    kw = {}
    for k, v in NEEDS.get(opt, {}).items():
        for r, e in zip(rows, eff):
            r[k] = e[k] = v
    finish(ctx, rows, eff, kw, opt, vals, where, calibrating, mode)
    judge(ctx, rows, eff, kw, calibrating, mode)


def setting(ctx, opts, calibrating, mode="pH"):
    d = scratch(ctx)
    opt = ctx.choice("option", opts)
    where = ctx.choice("place", PLACES)
    name = data(ctx, d, mode)
    rows = [base_row(ctx, d, name, mode, i, calibrating) for i in range(2)]
    eff = [{}, {}]
    kw = {}
    if opt in ("dilute_totals_for_ks", "opt_k_carbonic"):
        for r, e in zip(rows, eff):
            r["dic"] = e["dic"] = 2000.0
    finish(ctx, rows, eff, kw, opt, SET[opt], where, calibrating, mode)
    judge(ctx, rows, eff, kw, calibrating, mode)


def reading(ctx, opts, calibrating, mode="pH", old=False):
    """reading options; old: as read_dat_kwargs"""
    d = scratch(ctx)
    opt = ctx.choice("option", opts)
    layout, right, other = READ[opt]
    name = data(ctx, d, mode, layout)
    rows = [base_row(ctx, d, name, mode, i, calibrating) for i in range(2)]
    eff = [{}, {}]
    kw = {}
    if layout == "columns":
        # the columns not under test as keywords
        for k in ("col_titrant_amount", "col_measurement", "col_temperature"):
            if k != opt:
                kw[k] = READ[k][1]
                eff[0][k] = eff[1][k] = kw[k]
    if old:
        where = ctx.choice("place", ["kwarg", "both", "null+kwarg"])
    else:
        where = ctx.choice("place", PLACES)
    vals = (right, right, right if where in ("kwarg", "null+kwarg") else other)
    finish(ctx, rows, eff, kw, opt, vals, where, calibrating, mode)
    if opt == "read_dat_method":
        for e in eff:
            if e.get(opt) is not None:
                e["file_type"] = e.pop(opt)
    if old:
        keys = [k for k in kw]
        kw = {"read_dat_kwargs": {k: kw.pop(k) for k in keys}}
    judge(ctx, rows, eff, kw, calibrating, mode)


def modes(ctx, calibrating):
    """solve_mode and file_path"""
    d = scratch(ctx)
    what = ctx.choice("what", ["solve_mode", "file_path"])
    where = ctx.choice("place", PLACES)
    name = data(ctx, d, "pH")
    rows = [base_row(ctx, d, name, "pH", i, calibrating) for i in range(2)]
    eff = [{}, {}]
    kw = {}
    if what == "solve_mode":
        if where == "null":
            # default: EMF; the file holds EMF values then
            data(ctx, d, "emf")
            for r in rows:
                r["double"] = False
                r["emf0_init"] = 600.0
            for e in eff:
                e.update(double=False, emf0_init=600.0)
        for r in rows:
            del r["solve_mode"]
        finish(ctx, rows, eff, kw, "solve_mode",
               ("pH_gran", "ph" if where != "null" else "EMF", "pH"), where,
               calibrating, "pH")
        judge(ctx, rows, eff, kw, calibrating, "emf")
        return
    for r in rows:
        del r["file_path"]
    if where in ("both", "null+kwarg"):
        other = os.path.join(d, "none")
        if where == "both":
            kw["file_path"] = other
            for r in rows:
                r["file_path"] = d
        else:
            os.mkdir(other)
            write_dat(ctx, os.path.join(other, name), [
                [2.5, 2.7, 2.9], [3.6, 3.4, 3.2], [20.0, 20.5, 21.0]])
            kw["file_path"] = d
            rows[0]["file_path"], rows[1]["file_path"] = None, other
    elif where == "null":
        rows[0]["file_path"], rows[1]["file_path"] = None, d
        rows[0]["file_name"] = os.path.join(d, name)
    else:
        kw["file_path"] = d
    # judge() wants complete paths
    full = []
    for r in rows:
        p = r.get("file_path") or kw.get("file_path") or ""
        full.append(os.path.join(p, r["file_name"]))
    df = table(rows)
    (calk.calibrate if calibrating else calk.solve)(df, **kw)
    for i, r in enumerate(rows):
        o = {"analyte_mass": r["analyte_mass"]}
        if calibrating:
            c = steps(full[i], r["salinity"], o, "pH",
                      certified=r["alkalinity_certified"])
            same(ctx, f"molinity {i}", df["titrant_molinity_here"].iloc[i],
                 c["x"][0])
        else:
            s = steps(full[i], r["salinity"], o, "pH",
                      mol=r["titrant_molinity"])
            same(ctx, f"alkalinity {i}", df["alkalinity"].iloc[i],
                 s.alkalinity)


def emf_options(ctx, calibrating):
    """options of the EMF solver"""
    d = scratch(ctx)
    opt = ctx.choice("option", ["emf0_init", "double"] + (
        [] if calibrating else ["gran_logic"]))
    where = ctx.choice("place", [
        p for p in PLACES if not (
            calibrating and opt == "emf0_init" and p == "null")])
    name = data(ctx, d, "emf")
    rows = [base_row(ctx, d, name, "emf", i, calibrating) for i in range(2)]
    if opt == "emf0_init" and where == "null":
        # the Gran guess: keep its pH window to one case
        rows[0]["titrant_molinity"] = 0.1
    if ctx.sym:
        dd = calk.read_dat(os.path.join(d, name))

        def window(x):
            for j in range(len(MASS)):
                p = -np.log10(h_emf(dd.measurement[j], x[1],
                                    dd.temperature[j]))
                ctx.assume(p >= 3)
                ctx.assume(p <= 4)
        if opt == "double":
            ctx.on_lsq = window
    eff = [{}, {}]
    kw = {}
    if opt == "gran_logic":
        vals = ("legacy", "v23.7+", "legacy")
    elif opt == "double":
        vals = (False, False, False)
    else:
        vals = [ctx.real(f"emf0_{x}", lo=597, hi=603, nice=(599, 601))
                for x in ("row0", "row1", "keyword")]
    fixed = {}
    if opt != "emf0_init":
        fixed["emf0_init"] = 600.0
    if opt != "double":
        fixed["double"] = False
    for r, e in zip(rows, eff):
        r.update(fixed)
        e.update(fixed)
    finish(ctx, rows, eff, kw, opt, vals, where, calibrating, "emf")
    judge(ctx, rows, eff, kw, calibrating, "emf")


ZERO = ("temperature_override", "dic", "total_phosphate", "total_sulfate",
        "total_borate", "total_fluoride", "titrant_total_sulfate")


def zeros(ctx, opts, calibrating, mode="pH"):
    """zero and False are values like any other"""
    d = scratch(ctx)
    opt = ctx.choice("option", opts)
    name = data(ctx, d, mode)
    rows = [base_row(ctx, d, name, mode, i, calibrating) for i in range(2)]
    lo, hi, a, b = NUM[opt]
    k = ctx.real(f"{opt}_keyword", lo=lo, hi=hi, nice=(a, b))
    eff = [{}, {}]
    kw = {}
    vals = (0.0, a, k)
    if ctx.flag("zero keyword"):
        vals = (None, a, 0.0)
    finish(ctx, rows, eff, kw, opt, vals,
           "null+kwarg" if vals[0] is None else "both", calibrating, mode)
    judge(ctx, rows, eff, kw, calibrating, mode)


def ranges(ctx, calibrating):
    """pH_range: lower and upper limit in one, as keyword"""
    d = scratch(ctx)
    name = data(ctx, d, "pH")
    rows = [base_row(ctx, d, name, "pH", i, calibrating) for i in range(2)]
    eff = [dict(pH_min=3.25, pH_max=3.55), dict(pH_min=3.25, pH_max=3.55)]
    kw = {"pH_range": ctx.choice("type", [(3.25, 3.55), [3.25, 3.55]])}
    if ctx.flag("row limit"):
        rows[0]["pH_max"], rows[1]["pH_max"] = None, 3.9
        eff[1]["pH_max"] = 3.9
    judge(ctx, rows, eff, kw, calibrating, "pH")


def titration(ctx, how):
    """Titration: keywords, old spellings included, overwrite the row"""
    d = scratch(ctx)
    via = ctx.choice("via", ["Titration", "Dataset", "function"])
    row = None
    layout = "plain"
    kw, eff = {}, {}
    if how in NUM or how in SET:
        where = ctx.choice("place", ["both", "null", "null+kwarg", "kwarg",
                                     "row"])
    if how in NUM:
        lo, hi, a, b = NUM[how]
        r, k = [ctx.real(f"{how}_{x}", lo=lo, hi=hi, nice=(a, b))
                for x in ("row", "keyword")]
    elif how in SET:
        r, _, k = SET[how]
        if k == r:
            r = SET[how][1]
    elif how == "pH_range":
        kw[how] = (3.25, 3.55)
        row = {"pH_max": 3.9} if ctx.flag("row limit") else {}
        eff.update(pH_min=3.25, pH_max=3.55)
    elif how == "read_dat_kwargs":
        layout = "columns"
        eff = {k: READ[k][1] for k in ("col_titrant_amount",
                                       "col_measurement", "col_temperature")}
        kw[how] = dict(eff)
        row = {"col_measurement": 1} if ctx.flag("row column") else {}
    elif how == "read_dat_method":
        layout = "pclims"
        eff["file_type"] = "pclims"
        row = {how: "pclims"} if ctx.flag("in the row") else {}
        if not row:
            kw[how] = "pclims"
    if row is None:
        row = {}
        if where in ("both", "row"):
            row[how] = eff[how] = r
        elif where != "kwarg":
            row[how] = None
        if where in ("both", "null+kwarg", "kwarg"):
            kw[how] = eff[how] = k
        for k, v in NEEDS.get(how, {}).items():
            row[k] = eff[k] = v
    name = data(ctx, d, "pH", layout)
    base = base_row(ctx, d, name, "pH", 0, False)
    eff.setdefault("analyte_mass", base["analyte_mass"])
    base.update(row)
    df = table([base])
    if via == "Titration":
        tt = calk.Titration(df.iloc[0], **kw)
    elif via == "Dataset":
        tt = calk.Dataset(df).to_Titration(0, **kw)
    else:
        tt = calk.to_Titration(df, 0, **kw)
    m = eff.pop("solve_mode", "pH")
    s = steps(os.path.join(d, name), base["salinity"],
              {k: v for k, v in eff.items() if v is not None}, m,
              mol=base["titrant_molinity"])
    same(ctx, "alkalinity", tt.alkalinity, s.alkalinity)
    same(ctx, "points", tt.alkalinity_npts, int(s.used.sum()))
    same(ctx, "first temperature", tt.temperature_init, s.temperature[0])
    same(ctx, "first pH", tt.pH_init, s.pH[0])


def groups(ctx, calibrating, sets):
    """several options at once, each in its own place"""
    d = scratch(ctx)
    opts = ctx.choice("options", sets)
    shift = ctx.choice("shift", [0, 1, 2, 3])
    name = data(ctx, d, "pH")
    rows = [base_row(ctx, d, name, "pH", i, calibrating) for i in range(2)]
    eff = [{}, {}]
    kw = {}
    for j, opt in enumerate(opts):
        lo, hi, a, b = NUM[opt]
        vals = [ctx.real(f"{opt}_{x}", lo=lo, hi=hi, nice=(a, b))
                for x in ("row0", "row1", "keyword")]
        finish(ctx, rows, eff, kw, opt, vals, PLACES[(j + shift) % 4],
               calibrating, "pH")
    judge(ctx, rows, eff, kw, calibrating, "pH")


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1800)
    out = []
    for how in ["pH_range", "read_dat_kwargs", "read_dat_method",
                "total_sulfate", "temperature_override", "opt_k_bisulfate",
                "titrant_amount_unit", "pH_max"] + (
                    [] if q else ["dic", "k_bisulfate", "titrant_density",
                                  "titrant_normality", "titrant",
                                  "opt_total_borate", "pH_min",
                                  "titrant_total_sulfate", "opt_pH_scale"]):
        out.append(H(f"titration_{how}", titration, "Titration with " + how,
                     dict(how=how), **lim))
    nums = list(NUM)
    nums.remove("k_water")
    nums.append("k_water")
    parts = [nums[i::4] for i in range(4)]
    for cal in (False, True):
        c = "calibrate" if cal else "solve"
        for i, p in enumerate(parts):
            out.append(H(f"{c}_numbers_{i}", numeric, "2 rows, one of "
                         + ", ".join(p), dict(opts=p, calibrating=cal), **lim))
        out.append(H(f"{c}_settings", setting, "2 rows, one of "
                     + ", ".join(SET), dict(opts=list(SET), calibrating=cal),
                     **lim))
        out.append(H(f"{c}_reading", reading, "2 rows, one of "
                     + ", ".join(READ), dict(opts=list(READ),
                                             calibrating=cal), **lim))
        rd = [k for k in READ if k != "read_dat_method"]
        out.append(H(f"{c}_reading_old", reading, "2 rows, read_dat_kwargs",
                     dict(opts=rd, calibrating=cal, old=True), **lim))
        out.append(H(f"{c}_modes", modes, "2 rows, solve_mode and file_path",
                     dict(calibrating=cal), **lim))
        out.append(H(f"{c}_emf", emf_options, "2 rows, EMF solver options",
                     dict(calibrating=cal), trace_rtol=1e-3, **lim))
        out.append(H(f"{c}_zeros", zeros, "2 rows, zero in a row or as "
                     "keyword for one of " + ", ".join(ZERO),
                     dict(opts=list(ZERO), calibrating=cal), **lim))
        out.append(H(f"{c}_pH_range", ranges, "2 rows, pH_range",
                     dict(calibrating=cal), **lim))
        out.append(H(f"{c}_groups", groups, "2 rows, several options at once",
                     dict(calibrating=cal, sets=[
                         ("total_sulfate", "total_borate", "total_fluoride",
                          "dic"),
                         ("temperature_override", "titrant_density",
                          "total_phosphate", "total_silicate"),
                         ("k_bisulfate", "k_fluoride", "k_borate",
                          "titrant_normality")]), **lim))
    return out
