"""Totals and constants through a titration."""

import math
import os

import numpy as np

from calkulate import convert, core, files

from props.common import (TYPICAL, around, at, scratch, write_dat)
from symx import pyco2ref
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS salts and equilibria by contract (uninterpreted functions of "
    "their relevant arguments)",
]
SALTS = ("total_borate", "total_fluoride", "total_sulfate")
OTHER = ("dic", "total_ammonia", "total_phosphate", "total_silicate",
         "total_sulfide", "total_alpha", "total_beta")
KS = tuple(pyco2ref.KN)

# option sets: (dilute, scale, carbonic, bisulfate, fluoride, borate)
OPTS = [
    (None, None, None, None, None, None),
    (False, None, None, None, None, None),
    (True, None, None, None, None, None),
    (True, 1, 4, 2, 2, 2),
    (None, 1, 14, None, None, None),
    (None, None, None, 2, None, None),
    (None, None, None, None, 2, None),
    (None, None, None, None, None, 2),
    (None, 2, 16, 1, 2, 2),
    (True, None, 10, 2, 1, 2),
]
NAMES = ("dilute_totals_for_ks", "opt_pH_scale", "opt_k_carbonic",
         "opt_k_bisulfate", "opt_k_fluoride", "opt_total_borate")


def expected(ctx, tm, ma, temp, sal, kw, titrant=None, molinity=0):
    """reference totals and constants at one point"""
    okc = kw.get("opt_k_carbonic", 10)
    ref = pyco2ref.salts(ctx, sal, okc, kw.get("opt_total_borate", 1))
    und = {s: kw[s] * 1e-6 if s in kw else ref[s] for s in SALTS}
    for s in OTHER:
        if s in kw:
            und[s] = kw[s] * 1e-6
    und.setdefault("dic", 0.0)
    dil = ma / (ma + tm)
    tot = {k: v * dil for k, v in und.items()}
    f = dil if kw.get("dilute_totals_for_ks") else 1
    scale = kw.get("opt_pH_scale", 3)
    tso4 = und["total_sulfate"] * f
    ks = pyco2ref.constants(
        ctx, temp, sal, tso4, und["total_fluoride"] * f, scale, okc,
        kw.get("opt_k_bisulfate", 1), kw.get("opt_k_fluoride", 1),
        {k: kw[k] for k in KS if k in kw})
    if scale == 1:
        ks["k_fluoride"] = ks["k_fluoride"] * (1 + tso4 / ks["k_bisulfate"])
    for k, x in (titrant or {}).items():
        tot[k] = tot[k] + tm * molinity * x / (ma + tm)
    return tot, ks


def given_values(ctx, which):
    kw = {}
    for k in which:
        if k.startswith("k_"):
            kw[k] = ctx.real("v_" + k, lo=1e-16, hi=10,
                             nice=around(TYPICAL[k], 0.3))
        else:
            kw[k] = ctx.real("v_" + k, lo=1e-3, hi=1e5,
                             nice=around(TYPICAL[k] * 1e6, 0.3))
    return kw


def through(ctx, n, opts, given):
    tm = ctx.vec("titrant_mass", n, lo=0, hi=0.05, nice=(1e-4, 4e-3))
    temp = ctx.vec("temperature", n, lo=0, hi=50, nice=(15, 30))
    meas = ctx.arr([0.0] * n)
    ma = ctx.real("analyte_mass", lo=1e-3, hi=1, nice=(0.09, 0.11))
    sal = ctx.real("salinity", lo=1, hi=50, nice=(30, 38))
    cv = convert.Converted(tm, meas, temp, ma, sal)
    o = ctx.choice("options", opts)
    kw = {k: v for k, v in zip(NAMES, o) if v is not None}
    which = ctx.choice("given", given)
    kw.update(given_values(ctx, which))
    tot, ks = core.totals_ks(cv, **kw)
    compare(ctx, tot, ks, n, tm, ma, temp, sal, kw)


def compare(ctx, tot, ks, n, tm, ma, temp, sal, kw, titrant=None, mol=0):
    for i in range(n):
        et, ek = expected(ctx, tm[i], ma, temp[i], sal, kw, titrant, mol)
        for k, v in et.items():
            ctx.true(f"{k} present", k in tot)
            if k in tot:
                ctx.eq(f"{k} {i}", at(tot[k], i), v, atol=1e-16)
        for k in tot:
            if k not in et:
                ctx.eq(f"absent {k} {i}", at(tot[k], i), 0.0)
        for k, v in ek.items():
            if k in ("k_alpha", "k_beta") and k not in kw:
                continue
            ctx.eq(f"{k} {i}", at(np.asarray(ks[k]), i), v)


def titrant_contents(ctx, n, which, modes):
    """files.solve adds the titrant's own salts at the molinity in use"""
    d = scratch(ctx)
    tm = ctx.vec("titrant", n, lo=1e-5, hi=50, nice=(0.5, 4))
    pH = [3.5 - 0.2 * i for i in range(n)]
    temp = ctx.vec("temperature", n, lo=0, hi=50, nice=(20, 30))
    path = write_dat(ctx, os.path.join(d, "t.dat"), [tm, pH, temp])
    ma = ctx.real("analyte_mass", lo=1e-3, hi=1, nice=(0.09, 0.11))
    sal = ctx.real("salinity", lo=1, hi=50, nice=(30, 38))
    mol = ctx.real("molinity", lo=1e-3, hi=2, nice=(0.09, 0.11))
    names = ctx.choice("which", which)
    kw = {}
    titrant = {}
    for x in names:
        f = ctx.real("factor_" + x, lo=0, hi=3, nice=(0.3, 2))
        kw["titrant_total_" + x] = f
        titrant["total_" + x] = f
    if "phosphate" in names:
        kw["total_phosphate"] = ctx.real("phosphate", lo=0.01, hi=100,
                                         nice=(1, 3))
    if ctx.flag("dilute"):
        kw["dilute_totals_for_ks"] = True
    mode = ctx.choice("mode", modes)
    name = path
    if ctx.flag("file_path"):
        kw["file_path"] = d
        name = "t.dat"
    sr = files.solve(name, mol, sal, solve_mode=mode, analyte_mass=ma,
                     titrant_amount_unit="g", **kw)
    masses = [t * 0.001 for t in tm]
    compare(ctx, sr.totals, sr.k_constants, n, masses, ma, temp, sal, kw,
            titrant, mol)
    for i in range(n):
        ctx.eq(f"mass {i}", sr.titrant_mass[i], masses[i])
        ctx.eq(f"pH {i}", sr.pH[i], pH[i])
    ctx.eq("molinity", sr.titrant_molinity, mol)


def harnesses(tier):
    n = 2 if tier == "quick" else 3
    single = [()] + [(k,) for k in SALTS + OTHER + KS]
    allof = [SALTS + OTHER, KS, SALTS + OTHER + KS]
    which = [(), ("sulfate",), ("phosphate",), ("fluoride",),
             ("sulfate", "fluoride", "phosphate")]
    return [
        Harness("options", through, f"{n} points, {len(OPTS)} option sets, "
                "salts given or not", dict(
                    n=n, opts=OPTS, given=[(), SALTS, ("total_sulfate",),
                                           ("k_bisulfate", "k_fluoride")])),
        Harness("given", through, f"{n} points, each total and constant given",
                dict(n=n, opts=[OPTS[0], OPTS[3]] if tier == "quick"
                     else OPTS, given=single + allof)),
        Harness("titrant", titrant_contents, f"{n} points, titrant carrying "
                "any of sulfate, phosphate, fluoride; modes pH, pH_gran",
                dict(n=n, which=which, modes=["pH", "pH_gran"])),
    ]
