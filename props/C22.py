"""Inputs are left as they were; repeated runs give the same results."""

import math
import os

import numpy as np
import pandas as pd

import calkulate as calk
from calkulate import convert, core, files, interface, simulate

from props.C16 import nan, same
from props.C17 import COLS, MASS, table, titration_file
from props.C19 import data_file, hold, values
from props.common import STEP_KEYS, scratch, write_dat
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS and SciPy least squares by contract (functions of their "
    "arguments: the same call gives the same result); in the contract of "
    "calibration the optimiser calls the residual function once",
    "add_titrant_totals works in place on the totals by its documentation; "
    "totals_ks and dataset preparation fill nulls of the dataset's own "
    "columns",
    "salinities, molinities, masses, numeric options and (with known pH) "
    "measurements are symbolic; histories up to 3 calls explored "
    "exhaustively",
]


def snap(x):
    """a deep record of the values"""
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.columns), list(x.index),
                {c: list(x[c]) for c in x.columns})
    if isinstance(x, pd.Series):
        return ("series", list(x.index), list(x))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, list(x.ravel()))
    if isinstance(x, dict):
        return ("dict", {k: snap(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ("list", [snap(v) for v in x])
    return ("value", x)


def one(ctx, label, got, want):
    if isinstance(want, (str, bool, np.bool_)) or want is None:
        ctx.true(label, type(got) is type(want) and got == want
                 or want is None and nan(got), f"{got!r}, was {want!r}")
    elif nan(want):
        ctx.true(label, nan(got), f"{got!r}, was empty")
    elif nan(got) or isinstance(got, str):
        ctx.true(label, False, f"{got!r}, was {want!r}")
    else:
        ctx.eq(label, got, want, trace=False, rtol=1e-9)


def kept(ctx, label, x, was, extra=None, skip=()):
    """x is as recorded in ``was``; extra: what may have been added"""
    now = snap(x)
    if not ctx.true(label, now[0] == was[0], f"{now[0]}, was {was[0]}"):
        return
    kind = was[0]
    if kind == "frame":
        ctx.true(label + " rows", now[2] == was[2], f"{now[2]}")
        for c in was[1]:
            if c in skip:
                continue
            if not ctx.true(f"{label} column {c}", c in now[3]):
                continue
            for i, (g, w) in enumerate(zip(now[3][c], was[3][c])):
                if extra == "filled" and nan(w):
                    continue  # a dataset fills in what is missing
                one(ctx, f"{label} {c} {i}", g, w)
        if extra is None:
            ctx.true(label + " columns", now[1] == was[1], f"{now[1]}")
    elif kind == "series":
        ctx.true(label + " names", now[1] == was[1],
                 f"{sorted(set(map(str, now[1])) - set(map(str, was[1])))}")
        if now[1] == was[1]:
            for k, g, w in zip(now[1], now[2], was[2]):
                one(ctx, f"{label} {k}", g, w)
    elif kind == "array":
        if ctx.true(label + " shape", now[1] == was[1]):
            for i, (g, w) in enumerate(zip(now[2], was[2])):
                one(ctx, f"{label} {i}", g, w)
    elif kind == "dict":
        for k in was[1]:
            if ctx.true(f"{label} {k}", k in now[1]):
                kept(ctx, f"{label} {k}", x[k], was[1][k])
        for k in now[1]:
            if k in was[1]:
                continue
            if extra == "zero":
                # an amount that was added and taken away again
                for v in np.ravel(np.asarray(x[k])):
                    ctx.eq(f"{label} {k}", v, 0.0, trace=False, atol=1e-12)
            else:
                ctx.true(f"{label} {k}", False, "was not there")
    elif kind == "list":
        if ctx.true(label + " length", len(now[1]) == len(was[1])):
            for i, w in enumerate(was[1]):
                kept(ctx, f"{label} {i}", x[i], w)
    else:
        one(ctx, label, now[1], was[1])


class Watch:
    """things that have to stay as they are"""

    def __init__(self, ctx):
        self.ctx, self.things = ctx, []

    def add(self, label, x, **k):
        self.things.append((label, x, snap(x), k))
        return x

    def check(self, when):
        for label, x, was, k in self.things:
            kept(self.ctx, f"{label} after {when}", x, was, **k)


def options(ctx, mode, opts, double=False):
    o = values(ctx, opts)
    if mode in ("emf", "pH_adjust"):
        if mode == "emf":
            o["emf0_init"] = 600.0
        o["double"] = double
    return o


def core_level(ctx, mode, sets, what="solve"):
    """the arrays and dicts passed from step to step"""
    d = scratch(ctx)
    o = options(ctx, mode, ctx.choice("options", sets))
    name = data_file(ctx, d, mode)
    sal = ctx.real("salinity", lo=20, hi=45, nice=(33, 36))
    mol = ctx.real("molinity", lo=0.01, hi=1, nice=(0.099, 0.101))
    cert = ctx.real("certified", lo=500, hi=5000, nice=(2290, 2310))
    o["analyte_mass"] = ctx.real("analyte_mass", lo=0.05, hi=0.3,
                                 nice=(0.0995, 0.1005))

    def sub(step):
        return {k: o[k] for k in STEP_KEYS[step] if k in o}

    w = Watch(ctx)
    dd = calk.read_dat(os.path.join(d, name))
    w.add("data", dd)
    cv = convert.amount_units(dd, sal, **w.add("unit options", sub("units")))
    w.check("amount_units")
    w.add("converted", cv)
    kt = sub("totals")
    tot, ks = core.totals_ks(cv, **w.add("total options", kt))
    w.check("totals_ks")
    x = cv.measurement
    nm = {"emf": "emf", "pH_adjust": "emf", "pH": "pH",
          "pH_gran": "pH_gran"}[mode]
    kw = sub("emf" if nm == "emf" else "ph")
    if mode == "pH_adjust":
        x = w.add("emf", convert.pH_to_emf(x, 0, cv.temperature))
        kw["emf0_init"] = 0
    w.add("options", kw)
    w.add("constants", ks)
    args = (cv.titrant_mass, x, cv.temperature, cv.analyte_mass)
    if what == "solve":
        tot = core.add_titrant_totals(tot, cv.titrant_mass, cv.analyte_mass,
                                      mol, **sub("titrant"))
        w.check("add_titrant_totals")
        w.add("totals", tot)
        f = getattr(core, "solve_" + nm)
        s = f(mol, *args, tot, ks, **kw)
        w.check("solve")
        w.add("result", [s.used, s.pH, s.alkalinity])
        simulate.alkalinity(s.pH, tot, ks)
        w.check("simulate")
        if nm == "emf":
            core.gran_guesses(*args, mol)
        r = f(mol, *args, tot, ks, **kw)
        w.check("again")
        ctx.eq("same alkalinity", r.alkalinity, s.alkalinity)
        ctx.eq("same pH", r.pH, s.pH)
        ctx.true("same points", list(r.used) == list(s.used))
    else:
        w.add("totals", tot, extra="zero")
        f = getattr(core, "calibrate_" + nm)
        tk = w.add("titrant", sub("titrant"))
        a = f(cert, *args, tot, ks, **kw, **tk)
        w.check("calibrate")
        b = f(cert, *args, tot, ks, **kw, **tk)
        w.check("again")
        ctx.eq("same molinity", b["x"][0], a["x"][0])


def units(ctx, n):
    """every unit and titrant, with all steps that use the data after it"""
    unit = ctx.choice("unit", ["ml", "g", "kg"])
    scale = {"ml": 1e3, "g": 1e3, "kg": 1.0}[unit]
    o = {"titrant_amount_unit": unit}
    if unit == "ml":
        o.update(ctx.choice("titrant", [
            {"titrant": "HCl"}, {"titrant": "H2SO4"},
            {"titrant_density": 1.02}]))
    if ctx.flag("override"):
        o["temperature_override"] = 21.0
    if ctx.flag("volume"):
        o["analyte_volume"] = 98.0
    else:
        o["analyte_mass"] = 0.1
    w = Watch(ctx)
    sal = ctx.real("salinity", lo=20, hi=43, nice=(33, 36))
    ph = [3.6, 3.36, 3.2, 3.1][:n]
    cols = [
        [ctx.real(f"amount{i}", lo=1e-3 * scale, hi=5e-3 * scale,
                  nice=((2.545e-3 + 2e-4 * i) * scale,
                        (2.555e-3 + 2e-4 * i) * scale)) for i in range(n)],
        [ctx.real(f"pH{i}", lo=3.01, hi=3.99, nice=(p - .01, p + .01))
         for i, p in enumerate(ph)],
        [ctx.real(f"t{i}", lo=15, hi=30, nice=(24, 26)) for i in range(n)]]
    dd = w.add("data", calk.read_dat(write_dat(
        ctx, os.path.join(scratch(ctx), "a.dat"), cols)))
    w.add("options", o)
    a = convert.amount_units(dd, sal, **o)
    w.check("amount_units")
    w.add("converted", a)
    tot, ks = core.totals_ks(a, dic=2000.0)
    w.check("totals_ks")
    w.add("totals", tot)
    w.add("constants", ks)
    core.solve_pH(0.1, a.titrant_mass, a.measurement, a.temperature,
                  a.analyte_mass, tot, ks)
    w.check("solve_pH")
    core.gran_function(a.titrant_mass, 100.0 - 59.0 * a.measurement,
                       a.temperature, a.analyte_mass)
    w.check("gran_function")
    b = convert.amount_units(dd, sal, **o)
    w.check("amount_units again")
    for k in ("titrant_mass", "measurement", "temperature", "analyte_mass"):
        ctx.eq(k + " again", getattr(b, k), getattr(a, k))


def interfaces(ctx, n):
    """dilution and the constants work on copies"""
    w = Watch(ctx)
    sal = ctx.real("salinity", lo=20, hi=45, nice=(33, 36))
    opt = w.add("options", dict(
        dic=2000.0, total_phosphate=ctx.real("po4", lo=0.1, hi=9, nice=(1, 2)),
        total_alpha=20.0, opt_total_borate=2))
    tot, py = interface.get_totals(sal, **opt)
    w.add("totals", tot)
    w.add("library totals", py)
    tm = w.add("masses", ctx.vec("tm", n, lo=1e-5, hi=0.05,
                                 nice=(1e-3, 4e-3)))
    ma = ctx.real("ma", lo=0.05, hi=0.3, nice=(0.09, 0.11))
    temp = w.add("temperature", ctx.vec("t", n, lo=1, hi=40, nice=(20, 26)))
    dil = convert.dilute_totals(tot, tm, ma)
    w.add("diluted", dil)
    pyd = convert.dilute_totals_pyco2(py, tm, ma)
    w.check("dilution")
    w.add("diluted library totals", pyd)
    kw = w.add("constants", dict(k_alpha=1e-6, k_carbonic_1=1e-6))
    a = interface.get_k_constants(pyd, temp, **kw)
    w.check("constants")
    b = interface.get_k_constants(pyd, temp, **kw)
    w.check("constants again")
    for k in a:
        ctx.eq(k, b[k], a[k])
    c, _ = interface.get_totals(sal, **opt)
    for k in tot:
        ctx.eq(k, c[k], tot[k])
    simulate.alkalinity_components(ctx.vec("pH", n, lo=3, hi=8, nice=(3, 4)),
                                   dil, a)
    w.check("speciation")


def rows_for(ctx, d, mode, n, opts, calibrating=False):
    rows = []
    for i in range(n):
        r = dict(
            file_name=data_file(ctx, d, mode, i), file_path=d,
            salinity=ctx.real(f"salinity{i}", lo=20, hi=45, nice=(33, 36)),
            analyte_mass=0.1 + 0.002 * i, solve_mode=mode, note=f"n{i}",
            **opts)
        if calibrating:
            r["alkalinity_certified"] = ctx.real(
                f"certified{i}", lo=500, hi=5000, nice=(2290, 2310))
            r["analysis_batch"] = "b"
        else:
            r["titrant_molinity"] = ctx.real(
                f"molinity{i}", lo=0.01, hi=1, nice=(0.099, 0.101))
        rows.append(r)
    return rows


# what a run writes into the dataset
OUT = set(COLS) | {"alkalinity_offset", "titrant_molinity_here"}


def dataset(ctx, mode, what, opts, nulls=()):
    """columns and keyword arguments given stay; the second run agrees"""
    d = scratch(ctx)
    o = options(ctx, mode, opts)
    rows = rows_for(ctx, d, mode, 2, o, what != "solve")
    for k in nulls:
        rows[0][k] = None
    if ctx.flag("volume"):
        for r in rows:
            r["analyte_volume"] = r.pop("analyte_mass") * 975.0
    df = table(rows, index=["x", "y"])
    w = Watch(ctx)
    # what the user gives is not an output, except for the values solved for
    skip = {"titrant_molinity"} if what != "solve" else set()
    w.add("dataset", df, extra="filled", skip=skip)
    kw = w.add("keywords", dict(
        read_dat_kwargs={"delimiter": "\t"}, pH_range=[2.9, 4.1],
        total_silicate=5.0))
    f = getattr(calk, what)
    out = f(df, **kw)
    w.check("first run")
    ctx.true("returns the dataset", len(out) == 2)
    w2 = Watch(ctx)
    w2.add("first results", out.copy())
    first = snap(out)
    out2 = f(out, **kw)
    w.check("second run")
    w2.check("second run")
    now = snap(out2)
    ctx.true("rows", now[2] == first[2])
    for c in first[1]:
        if ctx.true("column " + c, c in now[3]):
            for i in range(2):
                one(ctx, f"{c} {i} again", now[3][c][i], first[3][c][i])


def target(ctx, kind, rows, d):
    """one observable calculation"""
    if kind == "solve":
        df = calk.solve(table(rows))
        return {f"{c} {i}": df[c].iloc[i] for c in COLS if c in df
                for i in range(len(df))}
    if kind == "titration":
        tt = calk.Titration(table(rows).iloc[0])
        out = {c: tt[c] for c in COLS if c in tt.row}
        for c in ("alkalinity_from_pH", "alkalinity_from_acid",
                  "k_carbonic_1", "total_sulfate"):
            for j, v in enumerate(tt.titration[c]):
                out[f"{c} {j}"] = v
        return out
    r = rows[0]
    s = files.solve(r["file_name"], r["titrant_molinity"], r["salinity"],
                    **{k: v for k, v in r.items() if k not in (
                        "file_name", "titrant_molinity", "salinity",
                        "note")})
    return {"alkalinity": s.alkalinity, "pH": s.pH[0],
            "total_sulfate": s.totals["total_sulfate"][0],
            "k_water": s.k_constants["k_water"][0]}


OTHER = dict(opt_k_carbonic=4, opt_k_bisulfate=2, opt_k_fluoride=2,
             opt_total_borate=2, dic=1500.0, total_phosphate=3.0,
             total_alpha=20.0, k_alpha=1e-6, k_bisulfate=0.09,
             titrant_normality=2.0, temperature_override=15.0,
             titrant_density=1.1, pH_min=3.0, pH_max=3.5)


def disturb(kind, rows, d, other):
    """some other use of the package in between"""
    if kind == "options":
        # the same rows, other options
        calk.solve(table([dict(r, **OTHER) for r in rows]))
    elif kind == "keywords":
        calk.solve(table(rows), **OTHER)
    elif kind == "titration":
        calk.Titration(table(rows).iloc[0], **OTHER)
    elif kind == "calibrate":
        calk.calibrate(table([dict(rows[0], alkalinity_certified=2200.0)]),
                       titrant_total_sulfate=1.0, dic=1500.0)
    elif kind == "failing":
        calk.solve(table([dict(rows[0], file_name="missing.dat"),
                          dict(rows[0], solve_mode="nonsense"),
                          dict(rows[0], titrant_total_sulfate=1.0,
                               file_name=other)]))
    elif kind == "file":
        r = dict(rows[0], file_name=other)
        calk.solve(table([r]), titrant_total_sulfate=1.0)
        calk.read_dat(os.path.join(d, other))


def history(ctx, mode, kind, between):
    """A, something else, A again, B, A: always the same A"""
    d = scratch(ctx)
    o = options(ctx, mode, "none")
    rows = rows_for(ctx, d, mode, 2 if kind == "solve" else 1, o)
    other = titration_file(ctx, d, 7, "emf" if mode == "emf" else "pH",
                           tag="other", free=False)
    if mode != "emf":
        # the other uses select the same two points in every case
        for r in rows:
            p = calk.read_dat(os.path.join(d, r["file_name"])).measurement
            ctx.assume(p[0] > 3.51)
            ctx.assume(p[1] < 3.49)
    first = target(ctx, kind, rows, d)
    done = []
    for j, bs in enumerate(between):
        b = ctx.choice(f"between{j}", bs) if len(bs) > 1 else bs[0]
        done.append(b)
        disturb(b, rows, d, other)
        again = target(ctx, kind, rows, d)
        for k, v in first.items():
            same(ctx, f"{k} after {done}", again[k], v)


def changed(ctx, mode, kind):
    """a file that changes between runs is read again"""
    d = scratch(ctx)
    o = options(ctx, mode, "none")
    rows = rows_for(ctx, d, mode, 2 if kind == "solve" else 1, o)
    before = target(ctx, kind, rows, d)
    p0, p1 = (os.path.join(d, r["file_name"]) for r in (
        rows[0], rows[-1]))
    q = titration_file(ctx, d, 5, "emf" if mode == "emf" else "pH",
                       tag="new", free=mode in ("pH", "pH_gran"))
    with open(os.path.join(d, q)) as f:
        new = f.read()
    with open(p0) as f:
        old = f.read()
    with open(p0, "w") as f:
        f.write(new)
    got = target(ctx, kind, rows, d)
    fresh = scratch(ctx)
    for r in rows:
        with open(os.path.join(fresh, r["file_name"]), "w") as f:
            with open(os.path.join(d, r["file_name"])) as g:
                f.write(g.read())
    want = target(ctx, kind, [dict(r, file_path=fresh) for r in rows], fresh)
    for k, v in want.items():
        same(ctx, f"{k} of the changed file", got[k], v)
    with open(p0, "w") as f:
        f.write(old)
    back = target(ctx, kind, rows, d)
    for k, v in before.items():
        same(ctx, f"{k} of the original file again", back[k], v)


def titration(ctx, mode, opts):
    """the row, the dataset it came from and the keywords stay"""
    d = scratch(ctx)
    o = options(ctx, mode, opts)
    rows = rows_for(ctx, d, mode, 2, o)
    for r in rows:
        r["dic"] = math.nan
    rows[1]["titrant_normality"] = 1.5
    df = table(rows, index=["x", "y"])
    w = Watch(ctx)
    w.add("dataset", df)
    row = w.add("row", df.loc["x"])
    kw = w.add("keywords", dict(
        titrant_normality=ctx.real("norm", lo=0.5, hi=2, nice=(0.99, 1.01)),
        dic=2000.0, file_type="genfromtxt"))
    how = ctx.choice("how", ["row", "dataset", "Dataset"])
    if how == "row":
        make = lambda: calk.Titration(row, **kw)  # noqa: E731
    elif how == "dataset":
        make = lambda: calk.to_Titration(df, "x", **kw)  # noqa: E731
    else:
        ds = w.add("Dataset", calk.Dataset(df))
        make = lambda: ds.to_Titration("x", **kw)  # noqa: E731
    a = make()
    w.check("Titration")
    t = w.add("table", a.titration)
    r = w.add("own row", a.row)
    a.get_alkalinity_from_acid()
    a.do_CO2SYS()
    str(a)
    w.check("its methods")
    b = make()
    w.check("another Titration")
    for k in COLS:
        if k in a.row:
            same(ctx, k + " again", b[k], a[k])
    for c in t.columns:
        if c in ("used", "gran_used"):
            continue
        for j in range(len(t)):
            same(ctx, f"{c} {j} again", b.titration[c].iloc[j], t[c].iloc[j])
    if how == "row":
        plain = calk.Titration(row)
        w.check("a plain Titration")
        s = files.solve(rows[0]["file_name"], rows[0]["titrant_molinity"],
                        rows[0]["salinity"], solve_mode=mode, file_path=d,
                        analyte_mass=rows[0]["analyte_mass"], **o)
        same(ctx, "without the keywords", plain.alkalinity, s.alkalinity)


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1800)
    out = []
    for mode in ("pH", "pH_gran", "emf", "pH_adjust"):
        slow = mode in ("emf", "pH_adjust")
        ss = ("nutrients", "titrant", "units") if not slow else (
            "none", "titrant")
        if mode == "pH_adjust":
            ss = ("none", "density")
        for what in ("solve", "calibrate"):
            out.append(H(f"core_{what}_{mode}", core_level,
                         f"3 points, {mode}, options " + ", ".join(ss),
                         dict(mode=mode, sets=ss, what=what), **lim))
    out.append(H("units", units, "3 points, all units and titrants",
                 dict(n=3), **lim))
    out.append(H("interface", interfaces, "2 points", dict(n=2), **lim))
    for mode in ("pH", "pH_gran", "emf"):
        for what in ("solve", "calibrate") + (("calkulate",)
                                              if mode == "pH_gran" else ()):
            out.append(H(f"{what}_{mode}", dataset, f"2 rows, {mode}, {what} "
                         "twice", dict(mode=mode, what=what, opts="none"),
                         **lim))
    nulls = ("dic", "titrant_amount_unit", "titrant_density", "total_sulfate",
             "opt_total_borate")
    for mode in ("pH", "pH_gran"):
        out.append(H(f"nulls_{mode}", dataset, f"2 rows, {mode}, null "
                     "options", dict(mode=mode, what="solve", opts="salts",
                                     nulls=nulls), **lim))
        out.append(H(f"titration_{mode}", titration, f"3 points, {mode}",
                     dict(mode=mode, opts="salts"), **lim))
    out.append(H("titration_emf", titration, "3 points, emf",
                 dict(mode="emf", opts="none"), **lim))
    B = ("options", "keywords", "titration", "calibrate", "failing", "file")
    for kind in ("solve", "titration", "file"):
        for mode in ("pH", "pH_gran") + (("emf",) if kind == "file" else ()):
            if mode == "emf":
                bs = (B[:1] + B[4:],)
            elif q:
                bs = (B,)
            else:
                bs = (B, B)
            out.append(H(f"history_{kind}_{mode}", history, f"{kind} before "
                         "and after other uses", dict(mode=mode, kind=kind,
                                                      between=bs), **lim))
            out.append(H(f"changed_{kind}_{mode}", changed, "file replaced "
                         "between runs", dict(mode=mode, kind=kind), **lim))
    return out
