"""Amounts of titrant and analyte in kilograms."""

import math

import numpy as np

from calkulate import convert
from calkulate.read.titrations import DatData

from props.common import at
from symx.engine import Harness

ASSUMPTIONS = ["real arithmetic in place of IEEE-754"]


def sw_density(t, s):
    """Millero & Poisson (1981), kg/l, as published"""
    rho0 = (999.842594 + 6.793952e-2 * t - 9.095290e-3 * t**2
            + 1.001685e-4 * t**3 - 1.120083e-6 * t**4 + 6.536336e-9 * t**5)
    a = (8.24493e-1 - 4.0899e-3 * t + 7.6438e-5 * t**2 - 8.2467e-7 * t**3
         + 5.3875e-9 * t**4)
    b = -5.72466e-3 + 1.0227e-4 * t - 1.6546e-6 * t**2
    c = 4.8314e-4
    return (rho0 + a * s + b * s * s**0.5 + c * s * s) / 1000


def hcl_density(a, b):
    """Dickson et al. (2007) eqs 13-17, g/ml"""
    m = a + b
    r = m**0.5
    phi = (a * (17.854 + 1.460 * r - 0.307 * m)
           + b * (16.613 + 1.811 * r + 0.094 * m)) / m
    w = 0.99704
    return w * (1000 + 36.46 * a + 58.44 * b) / (1000 + phi * m * w)


def h2so4_density(m):
    return 0.99750018 + 0.06181819 * m - 0.00285491 * m * m


UNITS = [None, "ml", "ML", "mL", "g", "G", "kg", "KG", "Kg"]
TITRANTS = [None, "HCl", "hcl", "HCL", "H2SO4", "h2so4"]


def data(ctx, n, integer=False):
    amount = ctx.vec("amount", n, lo=0, hi=100, nice=(0.1, 5))
    meas = ctx.vec("measurement", n, lo=-1000, hi=1000, nice=(200, 600))
    if integer:
        temp = ctx.vec("temperature", n, lo=-2, hi=60, nice=(15, 30),
                       integer=True)
        if ctx.sym:
            temp.intlike = True
        else:
            temp = temp.astype(int)
    else:
        temp = ctx.vec("temperature", n, lo=-2, hi=60, nice=(15, 30))
    return DatData(amount, meas, temp)


def titrant(ctx, n, units, titrants):
    """amount of titrant, for every unit, titrant, density and molinity"""
    dd = data(ctx, n)
    sal = ctx.real("salinity", lo=0, hi=60, nice=(30, 38))
    ma = ctx.real("analyte_mass", lo=1e-6, hi=10, nice=(0.09, 0.11))
    kw = {}
    u = ctx.choice("unit", units)
    if u is not None:
        kw["titrant_amount_unit"] = u
    t = ctx.choice("titrant", titrants)
    if t is not None:
        kw["titrant"] = t
    dens = None
    if ctx.flag("density given"):
        dens = kw["titrant_density"] = ctx.real(
            "density", lo=0.1, hi=3, nice=(0.98, 1.1))
    m1, m2, m3 = 0.1, 0.6, 0.1
    if ctx.flag("molinities given"):
        m1 = kw["molinity_HCl"] = ctx.real("m_HCl", lo=1e-3, hi=5,
                                           nice=(0.05, 0.3))
        m2 = kw["molinity_NaCl"] = ctx.real("m_NaCl", lo=1e-3, hi=5,
                                            nice=(0.2, 0.9))
        if ctx.flag("no NaCl"):
            m2 = kw["molinity_NaCl"] = 0.0
        m3 = kw["molinity_H2SO4"] = ctx.real("m_H2SO4", lo=1e-3, hi=5,
                                             nice=(0.06, 0.3))
    cv = convert.amount_units(dd, sal, analyte_mass=ma, **kw)
    unit = (u or "ml").lower()
    if unit == "kg":
        f = 1
    elif unit == "g":
        f = 0.001
    elif dens is not None:
        f = dens * 0.001
    elif (t or "HCl").upper() == "H2SO4":
        f = h2so4_density(m3) * 0.001
    else:
        f = hcl_density(m1, m2) * 0.001
    for i in range(n):
        ctx.eq(f"titrant mass {i}", cv.titrant_mass[i],
               dd.titrant_amount[i] * f)
        ctx.eq(f"measurement {i}", cv.measurement[i], dd.measurement[i])
        ctx.eq(f"temperature {i}", cv.temperature[i], dd.temperature[i])
    ctx.eq("analyte mass", cv.analyte_mass, ma)
    ctx.eq("salinity", cv.salinity, sal)
    ctx.true("lengths", len(cv.titrant_mass) == len(cv.measurement)
             == len(cv.temperature) == n)


def analyte(ctx, n, integer):
    """analyte mass or volume, with and without temperature override"""
    dd = data(ctx, n, integer)
    sal = ctx.real("salinity", lo=0, hi=60, nice=(30, 38))
    kw = {}
    mode = ctx.choice("analyte", ["mass", "volume", "both", "null mass",
                                  "null volume"])
    ma = vol = None
    if mode in ("mass", "both", "null volume"):
        ma = kw["analyte_mass"] = ctx.real("mass", lo=1e-6, hi=10,
                                           nice=(0.09, 0.11))
    if mode in ("volume", "both", "null mass"):
        vol = kw["analyte_volume"] = ctx.real("volume", lo=1e-3, hi=1e4,
                                              nice=(90, 110))
    if mode == "null mass":
        kw["analyte_mass"] = math.nan
    if mode == "null volume":
        kw["analyte_volume"] = math.nan
    ov = None
    if ctx.flag("override"):
        ov = kw["temperature_override"] = ctx.real(
            "override", lo=-2, hi=60, nice=(17.1, 25.9))
    elif ctx.flag("override None"):
        kw["temperature_override"] = None
    kw["titrant_amount_unit"] = "g"
    cv = convert.amount_units(dd, sal, **kw)
    for i in range(n):
        ctx.eq(f"temperature {i}", cv.temperature[i],
               dd.temperature[i] if ov is None else ov)
        ctx.eq(f"titrant mass {i}", cv.titrant_mass[i],
               dd.titrant_amount[i] * 0.001)
    if ma is not None:
        ctx.eq("given mass", cv.analyte_mass, ma)
    else:
        t = dd.temperature[0] if ov is None else ov
        ctx.eq("mass from volume", cv.analyte_mass,
               vol * sw_density(t, sal) * 0.001)
    ctx.eq("salinity", cv.salinity, sal)


def refused(ctx):
    """what cannot be converted is refused"""
    dd = data(ctx, 2)
    bad = ctx.choice("bad", ["unit", "unit l", "titrant", "no analyte",
                             "null analyte"])
    kw = dict(analyte_mass=0.1)
    if bad == "unit":
        kw["titrant_amount_unit"] = "mg"
    if bad == "unit l":
        kw["titrant_amount_unit"] = "l"
    if bad == "titrant":
        kw["titrant"] = "HNO3"
    if bad == "no analyte":
        kw = {}
    if bad == "null analyte":
        kw = dict(analyte_mass=math.nan, analyte_volume=math.nan)
    try:
        convert.amount_units(dd, 35.0, **kw)
        ok = False
    except Exception:
        ok = True
    ctx.true("refused", ok, bad)


def harnesses(tier):
    n = 2 if tier == "quick" else 4
    b = f"{n} titration points; "
    return [
        Harness("titrant_ml", titrant, b + "ml in 4 spellings, 6 titrants",
                dict(n=n, units=UNITS[:4], titrants=TITRANTS)),
        Harness("titrant_mass", titrant, b + "g and kg in 5 spellings",
                dict(n=n, units=UNITS[4:], titrants=[None, "H2SO4"])),
        Harness("analyte", analyte, b + "mass, volume, both, nulls, override",
                dict(n=n, integer=False)),
        Harness("analyte_integer", analyte, b + "integer temperatures",
                dict(n=n, integer=True)),
        Harness("refused", refused, b + "5 invalid requests"),
    ]
