"""Total salt contents."""

import math

from calkulate import interface

from symx.engine import Harness
from symx import pyco2ref

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS.salts.assemble by contract: entries given are kept, others are "
    "functions of salinity and the options",
]

SALTS = ("total_borate", "total_fluoride", "total_sulfate")
NUTS = ("total_ammonia", "total_phosphate", "total_silicate", "total_sulfide")
USER = ("total_alpha", "total_beta")
P2 = {"total_ammonia": "TNH3", "total_phosphate": "TPO4",
      "total_silicate": "TSi", "total_sulfide": "TH2S", "total_borate": "TB",
      "total_fluoride": "TF", "total_sulfate": "TSO4"}


def totals(ctx, salts, nuts, okcs, otbs):
    sal = ctx.real("salinity", lo=0.1, hi=60, nice=(20, 40))
    okc = ctx.choice("opt_k_carbonic", okcs)
    otb = ctx.choice("opt_total_borate", otbs)
    kw = {}
    if okc is not None:
        kw["opt_k_carbonic"] = okc
    if otb is not None:
        kw["opt_total_borate"] = otb
    given = {}
    for s in SALTS if salts else ():
        how = ctx.choice(s, ["absent", "given", "null", "None"])
        if how == "given":
            given[s] = kw[s] = ctx.real("v_" + s, lo=0, hi=1e5,
                                        nice=(50, 30000))
        elif how == "null":
            kw[s] = math.nan
        elif how == "None":
            kw[s] = None
    for s in NUTS + USER + ("dic",) if nuts else ():
        how = ctx.choice(s, ["absent", "given"])
        if how == "given":
            given[s] = kw[s] = ctx.real("v_" + s, lo=0, hi=1e4, nice=(1, 3000))
    tot, py = interface.get_totals(sal, **kw)
    ref = pyco2ref.salts(ctx, sal, 10 if okc is None else okc,
                         1 if otb is None else otb)
    exp = {}
    for s in SALTS:
        exp[s] = given[s] * 1e-6 if s in given else ref[s]
    exp["dic"] = given.get("dic", 0.0) * 1e-6
    for s in NUTS + USER:
        if s in given:
            if bool(given[s] > 0):
                exp[s] = given[s] * 1e-6
    ctx.true("which totals", set(tot) >= set(exp) and all(
        k in exp for k in tot if k not in exp
        and not _zero(ctx, k, tot[k])), f"{sorted(tot)}")
    for k in exp:
        if k in tot:
            ctx.eq(k, tot[k], exp[k], atol=1e-15)
    # the same values feed the constants
    for k in SALTS:
        ctx.eq("for constants " + k, py[P2[k]], exp[k], atol=1e-15)
    ctx.eq("salinity for constants", py["Sal"],
           0.0 if okc == 8 else sal)


def _zero(ctx, k, v):
    from symx.terms import SymReal

    if isinstance(v, SymReal):
        return not v.p
    return v == 0


def harnesses(tier):
    big = tier != "quick"
    return [
        Harness("salts", totals,
                "3 salts each absent/given/NaN/None x borate options 1, 2",
                dict(salts=True, nuts=False, okcs=[None], otbs=[None, 1, 2])),
        Harness("salt_models", totals,
                "carbonic options 1..17 except the freshwater/GEOSECS nutrient"
                " ones; borate options",
                dict(salts=False, nuts=False,
                     okcs=[None, 1, 4, 7, 10, 14, 16], otbs=[None, 1, 2])),
        Harness("nutrients", totals,
                "each nutrient, user-defined system and DIC absent or given",
                dict(salts=False, nuts=True, okcs=[None],
                     otbs=[None, 2] if big else [None]), max_paths=20000,
                time_limit=400),
    ]
