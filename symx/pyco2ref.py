"""Reference side of the PyCO2SYS contracts: in symbolic mode the same
uninterpreted functions as the stubs, in concrete mode the real library."""

import numpy as np
import PyCO2SYS as pyco2

from . import shims

NAMES = {"total_borate": "TB", "total_fluoride": "TF", "total_sulfate": "TSO4"}


def salts(ctx, sal, okc=10, otb=1):
    f = shims.salts_assemble if ctx.sym else pyco2.salts.assemble
    r = f(sal, 0.0, 0.0, 0.0, 0.0, okc, otb)
    out = {}
    for k, p in NAMES.items():
        v = r[p]
        if not ctx.sym:
            v = float(np.asarray(v)) if np.ndim(v) == 0 else np.asarray(v)
        out[k] = v
    return out


KN = {
    "k_alpha": "k_alpha", "k_ammonia": "KNH3", "k_beta": "k_beta",
    "k_bisulfate": "KSO4", "k_borate": "KB", "k_carbonic_1": "K1",
    "k_carbonic_2": "K2", "k_fluoride": "KF", "k_phosphoric_1": "KP1",
    "k_phosphoric_2": "KP2", "k_phosphoric_3": "KP3", "k_silicate": "KSi",
    "k_sulfide": "KH2S", "k_water": "KW",
}


def constants(ctx, temp, sal, tso4, tf, scale=3, okc=10, okb=1, okf=1,
              given=None):
    """the constants at one temperature; ``given`` in calkulate names"""
    f = shims.equil_assemble if ctx.sym else pyco2.equilibria.assemble
    ks = {KN[k]: v for k, v in (given or {}).items()}
    tot = {"Sal": sal, "TSO4": tso4, "TF": tf}
    r = f(temp, 0, tot, scale, okc, okb, okf, 3, Ks=ks)
    out = {}
    for k, p in KN.items():
        if p in r:
            v = r[p]
            if not ctx.sym and np.ndim(v) == 0:
                v = float(np.asarray(v))
            out[k] = v
    return out
