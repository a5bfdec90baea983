"""Equilibrium constants."""

import itertools
import math

import numpy as np

from calkulate import interface

from props.common import TYPICAL, around, at
from symx import pyco2ref
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS.equilibria.assemble by contract: constants given are kept, "
    "others are functions of temperature, salinity, total sulfate and "
    "fluoride, bisulfate and fluoride constants and the options",
]
KS = tuple(pyco2ref.KN)
P2 = {"total_ammonia": "TNH3", "total_phosphate": "TPO4",
      "total_silicate": "TSi", "total_sulfide": "TH2S", "total_borate": "TB",
      "total_fluoride": "TF", "total_sulfate": "TSO4"}


def subsets(tier):
    out = [(), KS] + [(k,) for k in KS] + [
        tuple(x for x in KS if x != k) for k in KS]
    if tier == "thorough":
        out += list(itertools.combinations(KS, 2))
    return out


def consts(ctx, subs, scales, opts, n=None, nulls=False, arrays=False):
    sal = ctx.real("salinity", lo=1, hi=50, nice=(30, 38))
    tk = dict(lo=0, hi=50, nice=(15, 30))
    temp = ctx.real("temperature", **tk) if n is None else ctx.vec(
        "temperature", n, **tk)
    sk = dict(lo=1e-6, hi=1, nice=(0.025, 0.03))
    fk = dict(lo=1e-8, hi=1e-2, nice=(6e-5, 8e-5))
    if arrays:
        tso4, tf = ctx.vec("TSO4", n, **sk), ctx.vec("TF", n, **fk)
    else:
        tso4, tf = ctx.real("TSO4", **sk), ctx.real("TF", **fk)
    py = {"Sal": sal, "TSO4": tso4, "TF": tf, "TB": 4e-4, "TCa": 0.01,
          "TPO4": 0.0, "TSi": 0.0, "TNH3": 0.0, "TH2S": 0.0}
    sub = ctx.choice("given", subs)
    scale = ctx.choice("scale", scales)
    okc, okb, okf = ctx.choice("options", opts)
    kw = {}
    if scale is not None:
        kw["opt_pH_scale"] = scale
    for k, v in (("opt_k_carbonic", okc), ("opt_k_bisulfate", okb),
                 ("opt_k_fluoride", okf)):
        if v is not None:
            kw[k] = v
    given = {k: ctx.real(k, lo=1e-16, hi=10, nice=around(TYPICAL[k], 0.3))
             for k in sub}
    kw.update(given)
    if nulls:
        for k in KS:
            if k not in given:
                kw[k] = math.nan if nulls == "nan" else None
    r = interface.get_k_constants(py, temp, **kw)
    scale = 3 if scale is None else scale
    for i in range(n or 1):
        ref = pyco2ref.constants(
            ctx, at(temp, i), sal, at(tso4, i), at(tf, i), scale,
            okc or 10, okb or 1, okf or 1, given)
        if scale == 1:
            ref["k_fluoride"] = ref["k_fluoride"] * (
                1 + at(tso4, i) / ref["k_bisulfate"])
        for k in KS:
            if k in ("k_alpha", "k_beta") and k not in given:
                continue
            ctx.true(f"{k} present", k in r)
            ctx.eq(f"{k} {i}", at(np.asarray(r[k]) if n else r[k], i)
                   if n else r[k], ref[k])


def harnesses(tier):
    big = tier != "quick"
    subs = subsets(tier)
    opts = [(None, None, None), (4, 1, 2), (14, 2, 1), (16, 2, 2), (10, 2, 1),
            (10, 1, 2)]
    if big:
        opts += [(k, b, f) for k in (1, 2, 3, 4, 5, 9, 11, 12, 13, 15, 17)
                 for b in (1, 2) for f in (1, 2)]
    few = [(), ("k_fluoride",), ("k_bisulfate",), ("k_carbonic_1",
                                                   "k_water"), KS]
    return [
        Harness("given", consts, f"{len(subs)} subsets of the 14 constants, "
                "4 pH scales", dict(subs=subs, scales=[None, 1, 2, 3],
                                    opts=opts[:1]), 20000),
        Harness("nulls_nan", consts, f"{len(subs)} subsets, the rest NaN",
                dict(subs=subs, scales=[None], opts=opts[:1], nulls="nan"),
                20000),
        Harness("nulls_none", consts, f"{len(subs)} subsets, the rest None",
                dict(subs=subs, scales=[None], opts=opts[:1], nulls="None"),
                20000),
        Harness("options", consts, f"{len(opts)} option sets, 4 scales",
                dict(subs=few, scales=[None, 1, 2, 3], opts=opts), 20000),
        Harness("arrays", consts, "2 temperatures",
                dict(subs=few, scales=[None, 1, 3], opts=opts[:2], n=2)),
        Harness("arrays_totals", consts, "2 temperatures and totals",
                dict(subs=few, scales=[None, 1, 3], opts=opts[:2], n=2,
                     arrays=True)),
    ]
