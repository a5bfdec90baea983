"""Symbolic-mode replacements for numpy/pandas entry points that insist on C
floats, and contracts (stubs) for the external numerical libraries.

Only the globals of the ``calkulate`` modules are redirected, only while a path
is executed symbolically; concrete replays run the untouched code.
"""

import builtins
import contextlib
import itertools
import math
import sys
from fractions import Fraction

import numpy as np
import pandas as pd
import PyCO2SYS as pyco2
import scipy
import scipy.interpolate
import scipy.optimize
import scipy.stats

from . import terms as T
from .terms import SymBool, SymReal, Unsupported

REPO_PKG = "calkulate"
CUR = {"ctx": None}


# --------------------------------------------------------------------------
class SArr(np.ndarray):
    """object array; conversions to float keep the symbolic entries"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _floaty(dtype):
            return self.copy()
        return np.asarray(self).astype(dtype, *a, **k)

    def mean(self, axis=None, *a, **k):
        if axis is None and self.size == 0:
            return math.nan
        return np.asarray(self).mean(axis, *a, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return _std(np.asarray(self), ddof=ddof, axis=axis)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return _var(np.asarray(self), ddof=ddof)


def _floaty(dtype):
    if isinstance(dtype, type) and issubclass(dtype, SymFloat):
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def has_sym(x, depth=0):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(has_sym(v) for v in x.ravel())
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        return has_sym(x.to_numpy())
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x)
    return False


def is_obj(x):
    return (
        isinstance(x, (np.ndarray, pd.Series, pd.DataFrame))
        and getattr(x, "dtype", None) == object
    )


def sarr(x):
    a = np.asarray(x, dtype=object)
    return a.view(SArr) if a.ndim else a


def _var(a, ddof=0, axis=None):
    a = np.asarray(a)
    if axis not in (None, 0) or a.ndim > 1:
        return np.var(a, axis=axis, ddof=ddof)
    n = a.size
    if n - ddof <= 0:
        return math.nan
    m = a.sum() / n
    d = a - m
    return (d * d).sum() / (n - ddof)


def _sqrt(v):
    if isinstance(v, SymReal):
        return v.sqrt()
    return math.sqrt(v) if v == v else v


def _std(a, ddof=0, axis=None):
    if axis not in (None, 0) or np.ndim(a) > 1:
        return np.std(a, axis=axis, ddof=ddof)
    return _sqrt(_var(a, ddof))


def _isnan_scalar(x):
    if isinstance(x, (SymReal, SymBool)):
        return False
    try:
        return bool(np.isnan(x))
    except TypeError:
        if x is None or x is pd.NA:
            return True
        raise


def _elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, (SymReal, SymBool)):
            return f(x)
        if isinstance(x, pd.Series) and x.dtype == object:
            return pd.Series([f(v) for v in x.to_numpy()], index=x.index,
                             dtype=bool)
        if isinstance(x, (list, tuple)) and has_sym(x):
            x = sarr(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            r = np.empty(x.shape, dtype=bool)
            for i, v in np.ndenumerate(x):
                r[i] = f(v)
            return r
        return None
    return g


# --------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymReal))

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            v = x.ravel()[0]
            if isinstance(v, SymReal):
                return v
        return TAGS.map(builtins.float(x))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


class Tags:
    """numbers in files: every symbolic number is written as a distinctive
    decimal literal, parsed by the real reader, then mapped back"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.by_val = {}
        self.by_key = {}
        self.n = 0

    def tag(self, sym):
        if not isinstance(sym, SymReal):
            return sym
        k = T.p_key(sym.p)
        if k in self.by_key:
            return self.by_key[k]
        self.n += 1
        v = 5000.0 + self.n * 7.015625
        self.by_key[k] = v
        self.by_val[v] = sym
        return v

    def map(self, v):
        if isinstance(v, builtins.float):
            if v < 0 and -v in self.by_val:
                return -self.by_val[-v]
            return self.by_val.get(v, v)
        return v

    def map_array(self, a):
        if not self.by_val:
            return a
        a = np.asarray(a)
        if a.dtype.kind not in "fiu":
            return a
        flat = [self.map(builtins.float(v)) for v in a.ravel()]
        if not any(isinstance(v, SymReal) for v in flat):
            return a
        r = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            r[i] = v
        return r.reshape(a.shape).view(SArr)

    def map_frame(self, df):
        if not self.by_val:
            return df
        for i, c in enumerate(list(df.columns)):
            col = df.iloc[:, i]
            if col.dtype.kind in "fiu":
                m = self.map_array(col.to_numpy())
                if m.dtype == object:
                    df[c] = pd.Series(list(m), index=df.index, dtype=object)
        return df

    # formatting of symbolic numbers (HOOK.floats)
    def format(self, sym, spec):
        if spec in ("", "r"):
            return repr(self.tag(sym))
        s = spec.lstrip("+ -0")
        if s and s[-1] in "fF" and s[:1] == "." and s[1:-1].isdigit():
            r = T._round_atom(sym.p, Fraction(1, 10 ** int(s[1:-1])), "rint")
            return repr(self.tag(r))
        if s in ("f", "F"):
            return repr(self.tag(T._round_atom(sym.p, Fraction(1, 10**6), "rint")))
        a = T.STORE.get("opq", ("fmt", spec, T.p_key(sym.p)),
                        f"fmt{spec}", data=(sym.p,))
        if a.evalf is None:
            a.evalf = lambda evp, env, p=sym.p, spec=spec: builtins.float(
                builtins.format(builtins.float(evp(p)), spec))
        return repr(self.tag(SymReal(T.p_atom(a))))

    def int_tag(self, sym):
        return int(T_trunc_tag(self, sym))


def T_trunc_tag(tags, sym):
    """int() of a symbolic number that only ends up in text: a distinctive
    integer per truncated value (harnesses opt in)"""
    if not getattr(CUR["ctx"], "int_tags", False):
        raise Unsupported("int() of a symbolic value")
    k = ("int", T.p_key(T._round_atom(sym.p, Fraction(1), "trunc").p))
    if k not in tags.by_key:
        tags.by_key[k] = 700000 + 7 * len(tags.by_key)
    return tags.by_key[k]


TAGS = Tags()


# --------------------------------------------------------------------------
# numpy
def _mk_np():
    ov = {}

    def array(x, dtype=None, *a, **k):
        if has_sym(x):
            return np.array(x, dtype=object, **{
                kk: v for kk, v in k.items() if kk in ("copy", "ndmin")}
            ).view(SArr)
        if dtype is not None and _floaty(dtype):
            return TAGS.map_array(np.array(x, dtype=float, *a, **k))
        return np.array(x, dtype, *a, **k)

    def asarray(x, dtype=None, *a, **k):
        if isinstance(x, np.ndarray) and has_sym(x):
            return x
        return array(x, dtype)

    ov["array"] = array
    ov["asarray"] = ov["asanyarray"] = ov["ascontiguousarray"] = asarray

    def unary(name):
        real = getattr(np, name)

        def one(v):
            if isinstance(v, (SymReal, SymBool)):
                return real(v)
            return builtins.float(real(builtins.float(v)))

        def f(x, *a, **k):
            if isinstance(x, (list, tuple)) and has_sym(x):
                x = sarr(x)
            if a or k or getattr(x, "dtype", None) != object:
                return real(x, *a, **k)
            if isinstance(x, pd.Series):
                return pd.Series([one(v) for v in x.to_numpy()],
                                 index=x.index, dtype=object, name=x.name)
            if not isinstance(x, np.ndarray) or not x.ndim:
                return real(x)
            r = np.empty(x.shape, dtype=object)
            for i, v in np.ndenumerate(x):
                r[i] = one(v)
            return r.view(SArr)
        return f

    for _u in ("exp", "log", "log10", "sqrt"):
        ov[_u] = unary(_u)

    def _newdtype(dtype, fill=None):
        if dtype is None:
            if isinstance(fill, (bool, np.bool_)):
                return bool
            if isinstance(fill, (str, bytes)):
                return None
            return object
        if _floaty(dtype):
            return object
        return dtype

    def mk_create(name, val):
        def f(shape, dtype=None, **k):
            d = _newdtype(dtype, None)
            if d is object:
                r = np.empty(shape, dtype=object)
                r[...] = val
                return r.view(SArr)
            return getattr(np, name)(shape, dtype=d, **k)
        return f

    ov["zeros"] = mk_create("zeros", 0.0)
    ov["ones"] = mk_create("ones", 1.0)
    ov["empty"] = mk_create("empty", math.nan)

    def full(shape, fill_value, dtype=None, **k):
        d = _newdtype(dtype, fill_value)
        if d is object:
            r = np.empty(shape, dtype=object)
            r[...] = fill_value
            return r.view(SArr)
        return np.full(shape, fill_value, dtype=d, **k)

    ov["full"] = full

    def full_like(a, fill_value, dtype=None, **k):
        a_ = np.asarray(a)
        if dtype is None and a_.dtype != object and a_.dtype.kind in "biu":
            if isinstance(fill_value, SymReal):
                fill_value = fill_value.trunc()
                r = np.empty(a_.shape, dtype=object)
                r[...] = fill_value
                return r.view(SArr)
            return np.full_like(a, fill_value, **k)
        if dtype is None and a_.dtype == object and getattr(
                a, "intlike", False):
            if isinstance(fill_value, SymReal):
                fill_value = fill_value.trunc()
            elif isinstance(fill_value, builtins.float):
                fill_value = builtins.float(int(fill_value))
            r = np.empty(a_.shape, dtype=object)
            r[...] = fill_value
            return r.view(SArr)
        d = _newdtype(dtype, fill_value if dtype is None else None)
        if d is bool and dtype is None and a_.dtype == object:
            d = object
        if d is object:
            r = np.empty(k.get("shape") or a_.shape, dtype=object)
            r[...] = fill_value
            return r.view(SArr)
        return np.full_like(a, fill_value, dtype=d, **k)

    ov["full_like"] = full_like
    ov["zeros_like"] = lambda a, dtype=None, **k: full_like(a, 0.0, dtype)
    ov["ones_like"] = lambda a, dtype=None, **k: full_like(a, 1.0, dtype)
    ov["empty_like"] = lambda a, dtype=None, **k: full_like(a, math.nan, dtype)

    def arange(*args, **k):
        if not has_sym(args):
            r = np.arange(*args, **k)
            return r
        start, stop, step = (0, args[0], 1) if len(args) == 1 else (
            (*args, 1) if len(args) == 2 else args)
        out = []
        while True:
            v = start + len(out) * step
            if not bool(v < stop):
                break
            out.append(v)
            if len(out) > 24:
                raise Unsupported("arange longer than 24")
        return sarr(out)

    ov["arange"] = arange

    def linspace(a, b, num=50, **k):
        if not has_sym((a, b)):
            return np.linspace(a, b, num, **k)
        return sarr([a + (b - a) * Fraction(i, num - 1) for i in range(num)])

    ov["linspace"] = linspace

    nanf = _elementwise(_isnan_scalar)
    ov["isnan"] = lambda x, *a, **k: _or(nanf(x), lambda: np.isnan(x, *a, **k))

    def _finite(v):
        return True if isinstance(v, SymReal) else bool(np.isfinite(v))

    finf = _elementwise(_finite)
    ov["isfinite"] = lambda x, *a, **k: _or(
        finf(x), lambda: np.isfinite(x, *a, **k))

    def _inf(v):
        return False if isinstance(v, SymReal) else bool(np.isinf(v))

    inff = _elementwise(_inf)
    ov["isinf"] = lambda x, *a, **k: _or(inff(x), lambda: np.isinf(x, *a, **k))

    def _or(r, f):
        return f() if r is None else r

    def dropnan(x):
        x = np.asarray(x)
        if x.dtype != object:
            return x
        return sarr([v for v in x.ravel() if not _isnan_scalar(v)])

    def mk_nan(name, base):
        def f(x, *a, **k):
            if has_sym(x):
                axis = a[0] if a else k.get("axis")
                y = np.asarray(x)
                if axis is None or y.ndim < 2:
                    k.pop("axis", None)
                    return base(dropnan(x), *a[1:], **k)
                y = np.moveaxis(y, axis, -1)
                k.pop("axis", None)
                return sarr([base(dropnan(v), *a[1:], **k) for v in
                             y.reshape(-1, y.shape[-1])]).reshape(
                                 y.shape[:-1])
            return getattr(np, name)(np.asarray(x, dtype=float)
                                     if is_obj(x) else x, *a, **k)
        return f

    def mean(x, axis=None, *a, **k):
        if has_sym(x):
            x = np.asarray(x)
            if axis in (None,) or x.ndim == 1:
                if x.size == 0:
                    return math.nan
                if any(_isnan_scalar(v) for v in x.ravel()):
                    return math.nan
                return x.sum() / x.size
            return np.asarray(x).sum(axis=axis) / x.shape[axis]
        if is_obj(x):
            x = np.asarray(x, dtype=float)
        return np.mean(x, axis, *a, **k)

    def std(x, axis=None, ddof=0, **k):
        if has_sym(x):
            return _std(np.asarray(x), ddof=ddof, axis=axis)
        if is_obj(x):
            x = np.asarray(x, dtype=float)
        return np.std(x, axis, ddof=ddof, **k)

    def var(x, axis=None, ddof=0, **k):
        if has_sym(x):
            return _var(np.asarray(x), ddof=ddof, axis=axis)
        return np.var(np.asarray(x, dtype=float) if is_obj(x) else x,
                      axis, ddof=ddof, **k)

    def median(x, *a, **k):
        if has_sym(x):
            v = sorted(np.asarray(x).ravel().tolist())
            n = len(v)
            return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
        return np.median(np.asarray(x, dtype=float) if is_obj(x) else x, *a, **k)

    ov["mean"], ov["std"], ov["var"], ov["median"] = mean, std, var, median

    def average(x, axis=None, weights=None, **k):
        if has_sym(x) or has_sym(weights):
            if weights is None:
                return mean(x)
            w = np.asarray(weights)
            return (np.asarray(x) * w).sum() / w.sum()
        return np.average(x, axis, weights, **k)

    ov["average"] = average
    ov["nanmean"] = mk_nan("nanmean", mean)
    ov["nanstd"] = mk_nan("nanstd", std)
    ov["nanmax"] = mk_nan("nanmax", lambda x: np.max(x))
    ov["nanmin"] = mk_nan("nanmin", lambda x: np.min(x))
    ov["nansum"] = mk_nan("nansum", lambda x: np.sum(x))
    ov["nanmedian"] = mk_nan("nanmedian", median)

    def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            d = abs(a - b) if not isinstance(a, np.ndarray) else np.abs(a - b)
            return d <= atol + rtol * abs(b)
        return np.isclose(a, b, rtol, atol, **k)

    ov["isclose"] = isclose
    ov["allclose"] = lambda a, b, **k: bool(np.all(isclose(a, b, **k)))

    def array_equal(a, b, **k):
        if has_sym(a) or has_sym(b):
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and bool(np.all(a == b))
        return np.array_equal(a, b, **k)

    ov["array_equal"] = array_equal

    def polyfit(x, y, deg, **k):
        if has_sym(x) or has_sym(y):
            if deg != 1 or k:
                raise Unsupported("polyfit")
            lr = linregress(x, y)
            return sarr([lr.slope, lr.intercept])
        return np.polyfit(x, y, deg, **k)

    ov["polyfit"] = polyfit

    def polyval(p, x):
        if has_sym(p) or has_sym(x):
            r = 0
            for c in p:
                r = r * x + c
            return r
        return np.polyval(p, x)

    ov["polyval"] = polyval
    ov["genfromtxt"] = lambda *a, **k: TAGS.map_array(np.genfromtxt(*a, **k))
    ov["loadtxt"] = lambda *a, **k: TAGS.map_array(np.loadtxt(*a, **k))
    ov["float64"] = ov["double"] = ov["float32"] = SymFloat

    def trapezoid(y, x=None, dx=1.0):
        raise Unsupported("trapezoid")

    def log_base(x):
        return x

    def gradient(*a, **k):
        if has_sym(a):
            raise Unsupported("gradient")
        return np.gradient(*a, **k)

    ov["gradient"] = gradient

    def cumsum(x, *a, **k):
        return np.cumsum(x, *a, **k)

    def interp(x, xp, fp, *a, **k):
        if has_sym((x, xp, fp)) or has_sym(list(np.ravel(xp))):
            raise Unsupported("interp")
        return np.interp(x, xp, fp, *a, **k)

    ov["interp"] = interp
    return ov


class Proxy:
    """module proxy: overrides first, then the real module"""

    def __init__(self, real, ov):
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_ov", ov)

    def __getattr__(self, name):
        ov = object.__getattribute__(self, "_ov")
        if name in ov:
            return ov[name]
        return getattr(object.__getattribute__(self, "_real"), name)

    def __setattr__(self, k, v):
        raise Unsupported("assignment to a module attribute")


# --------------------------------------------------------------------------
# pandas
def _pd_reader(name):
    def f(*a, **k):
        return TAGS.map_frame(getattr(pd, name)(*a, **k))
    return f


def _pd_to_numeric(x, *a, **k):
    if has_sym(x):
        return x
    return pd.to_numeric(x, *a, **k)


PD_OV = {n: _pd_reader(n) for n in (
    "read_csv", "read_table", "read_excel", "read_fwf", "read_clipboard")}
PD_OV["to_numeric"] = _pd_to_numeric

_orig_reduce = pd.Series._reduce
from pandas.core.internals.blocks import Block

_orig_coerce = Block.coerce_to_target_dtype


def _coerce_block(self, other, raise_on_upcast=False):
    """a float column holds symbolic reals too"""
    if raise_on_upcast and has_sym(other) and self.values.dtype.kind in "fi":
        raise_on_upcast = False
    return _orig_coerce(self, other, raise_on_upcast)




def _series_reduce(self, op, name, *, axis=0, skipna=True, numeric_only=False,
                   filter_type=None, **kwds):
    if self.dtype == object and has_sym(self):
        vals = [v for v in self.to_numpy()]
        bad = [v for v in vals if _isnan_scalar(v)]
        good = [v for v in vals if not _isnan_scalar(v)]
        if bad and not skipna and name in ("mean", "std", "var", "sum"):
            return math.nan
        n = len(good)
        if name == "sum":
            return sum(good)
        if name == "mean":
            return sum(good) / n if n else math.nan
        if name in ("std", "var"):
            ddof = kwds.get("ddof", 1)
            v = _var(sarr(good), ddof=ddof)
            return v if name == "var" else _sqrt(v)
        if name == "min":
            return min(good)
        if name == "max":
            return max(good)
        if name == "median":
            v = sorted(good)
            return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    if self.dtype == object and name in ("mean", "std", "var", "sum") and len(
            self) and not has_sym(self):
        try:
            return _orig_reduce(self.astype(float), op, name, axis=axis,
                                skipna=skipna, numeric_only=numeric_only,
                                filter_type=filter_type, **kwds)
        except (TypeError, ValueError):
            pass
    return _orig_reduce(self, op, name, axis=axis, skipna=skipna,
                        numeric_only=numeric_only, filter_type=filter_type,
                        **kwds)


# --------------------------------------------------------------------------
# math
def _mk_math():
    def un(name, meth):
        def f(x, *a):
            if isinstance(x, SymReal):
                return getattr(x, meth)()
            return getattr(math, name)(x, *a)
        return f

    ov = {n: un(n, n) for n in ("exp", "log10", "sqrt", "log2", "log1p",
                                "expm1", "floor", "ceil", "trunc")}

    def log(x, base=None):
        if isinstance(x, SymReal) or isinstance(base, SymReal):
            r = x.log() if isinstance(x, SymReal) else math.log(x)
            if base is not None:
                b = base.log() if isinstance(base, SymReal) else SymReal(
                    T.p_log(T.p_const(T.to_frac(base))))
                r = r / b
            return r
        return math.log(x) if base is None else math.log(x, base)

    ov["log"] = log
    ov["pow"] = lambda a, b: a**b
    ov["isnan"] = lambda x: False if isinstance(x, SymReal) else math.isnan(x)
    ov["isfinite"] = lambda x: True if isinstance(x, SymReal) else math.isfinite(x)
    ov["isinf"] = lambda x: False if isinstance(x, SymReal) else math.isinf(x)
    ov["fabs"] = lambda x: abs(x)
    ov["fsum"] = lambda xs: sum(xs) if has_sym(list(xs)) else math.fsum(xs)
    return ov


# --------------------------------------------------------------------------
# opaque function values
def _ak(v):
    """canonical key of a scalar argument, and the poly (or None)"""
    if isinstance(v, SymReal):
        if len(v.p) == 0:
            return Fraction(0), None
        if len(v.p) == 1 and () in v.p:
            return v.p[()], None
        return ("p", T.p_key(v.p)), v.p
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return _ak(v.item())
    if isinstance(v, (bool, np.bool_)):
        return bool(v), None
    if isinstance(v, (int, builtins.float, np.number)):
        f = builtins.float(v)
        if f != f:
            return "nan", None
        if math.isinf(f):
            return "inf", None
        return Fraction(repr(f)), None
    return v, None


def opaque(fname, args, evalf, positive=False, data_extra=()):
    """value of an uninterpreted function: equal arguments, equal values"""
    keys = []
    polys = []
    for name, v in args:
        k, p = _ak(v)
        keys.append((name, k))
        if p is not None:
            polys.append(p)
    key = (fname, tuple(keys))
    a = T.STORE.get("opq", key, fname, data=tuple(polys) + tuple(data_extra),
                    positive=positive)
    if a.evalf is None:
        args = list(args)

        def ev(evp, env):
            num = {}
            for name, v in args:
                k, p = _ak(v)
                num[name] = builtins.float(evp(p)) if p is not None else (
                    builtins.float(k) if isinstance(k, Fraction) else
                    math.nan if k == "nan" else k)
            return evalf(num)

        a.evalf = ev
    return SymReal(T.p_atom(a))


def _bcast(values):
    """common length of array arguments (None if all scalar)"""
    n = None
    for v in values:
        if isinstance(v, (list, tuple, np.ndarray, pd.Series)) and np.ndim(v) > 0:
            m = len(v)
            if n is None or m > n:
                n = m
    return n


def _at(v, i):
    if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v) > 0:
        return v[i] if len(v) > 1 else v[0]
    if isinstance(v, pd.Series):
        return v.to_numpy()[i]
    return v


def _any_sym(values):
    return any(has_sym(v) for v in values)


# --- PyCO2SYS salts / equilibria -------------------------------------------
real_salts = pyco2.salts.assemble
real_equil = pyco2.equilibria.assemble
real_sys = pyco2.sys


def _plain(v):
    """object arrays without symbolic values as float arrays"""
    if isinstance(v, np.ndarray) and v.dtype == object:
        return np.array(v.tolist(), dtype=builtins.float)
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    return v


def salts_assemble(salinity, total_silicate, total_phosphate, total_ammonia,
                   total_sulfide, opt_k_carbonic, opt_total_borate,
                   totals=None):
    """contract: user-given entries kept; TB, TF, TSO4, TCa from salinity and
    the options; nutrients converted from micromol to mol"""
    totals = {} if totals is None else totals
    args = [salinity, total_silicate, total_phosphate, total_ammonia,
            total_sulfide, opt_k_carbonic, opt_total_borate,
            *totals.values()]
    if not _any_sym(args):
        return real_salts(salinity, total_silicate, total_phosphate,
                          total_ammonia, total_sulfide, opt_k_carbonic,
                          opt_total_borate, totals=totals)
    if has_sym(opt_k_carbonic) or has_sym(opt_total_borate):
        raise Unsupported("symbolic PyCO2SYS option")
    okc, otb = int(opt_k_carbonic), int(opt_total_borate)
    n = _bcast(args)

    def one(i):
        sal = _at(salinity, i)
        if okc == 8:
            sal = 0.0
        nut = [0.0 if okc in (6, 8) else _at(v, i) for v in (
            total_silicate, total_phosphate, total_ammonia, total_sulfide)]
        r = {}

        def uf(name, deps):
            def ev(num, name=name):
                return builtins.float(np.asarray(real_salts(
                    np.asarray(num["Sal"], dtype=builtins.float), 0.0, 0.0,
                    0.0, 0.0, okc, otb))[()][name])
            return opaque(f"pyco2.{name}", [("Sal", sal), *deps], ev,
                          positive=True)

        geo = 6 if okc in (6, 7) else 8 if okc == 8 else 10
        if okc == 8:
            r["TB"] = 0.0
        elif geo == 6:
            r["TB"] = uf("TB", [("C65", 1)])
        else:
            r["TB"] = uf("TB", [("opt", otb)])
        r["TF"] = uf("TF", []) if okc != 8 else 0.0
        r["TSO4"] = uf("TSO4", []) if okc != 8 else 0.0
        r["TCa"] = uf("TCa", [("geo", int(geo == 6))]) if okc != 8 else 0.0
        r["TSi"], r["TPO4"], r["TNH3"], r["TH2S"] = [v * 1e-6 for v in nut]
        r["Sal"] = sal
        r["PengCorrection"] = r["TPO4"] if okc == 7 else 0.0
        return r

    cols = [one(i) for i in range(n)] if n else [one(None)]
    for k in ("TB", "TF", "TSO4", "TCa"):
        if k not in totals:
            totals[k] = sarr([c[k] for c in cols]) if n else cols[0][k]
    totals.setdefault("total_alpha", 0.0)
    totals.setdefault("total_beta", 0.0)
    for k in ("PengCorrection", "TPO4", "TSi", "TNH3", "TH2S", "Sal"):
        totals[k] = sarr([c[k] for c in cols]) if n else cols[0][k]
    return totals


K_ALL = ("KB", "KW", "KP1", "KP2", "KP3", "KSi", "K1", "K2", "KH2S", "KNH3")


def equil_assemble(temperature, pressure, totals, opt_pH_scale,
                   opt_k_carbonic, opt_k_bisulfate, opt_k_fluoride,
                   opt_gas_constant, Ks=None, pressure_atmosphere=1.0,
                   opt_pressured_kCO2=0):
    """contract: user-given constants kept; others are functions of
    temperature, salinity, total sulfate and fluoride, bisulfate and fluoride
    constants and the options"""
    Ks = {} if Ks is None else Ks
    tot = [totals.get(k) for k in ("Sal", "TSO4", "TF")]
    if not _any_sym([temperature, pressure, *tot, *Ks.values()]):
        totals = _plain({k: v for k, v in totals.items() if not has_sym(v)})
        return real_equil(_plain(temperature), _plain(pressure), totals,
                          opt_pH_scale, opt_k_carbonic, opt_k_bisulfate,
                          opt_k_fluoride, opt_gas_constant, Ks=_plain(Ks))
    if has_sym([opt_pH_scale, opt_k_carbonic, opt_k_bisulfate,
                opt_k_fluoride]):
        raise Unsupported("symbolic PyCO2SYS option")
    if "Sal" not in totals or "TSO4" not in totals or "TF" not in totals:
        raise KeyError("Sal")
    ops = dict(opt_pH_scale=int(opt_pH_scale),
               opt_k_carbonic=int(opt_k_carbonic),
               opt_k_bisulfate=int(opt_k_bisulfate),
               opt_k_fluoride=int(opt_k_fluoride))
    n = _bcast([temperature, pressure, *tot, *Ks.values()])

    def run(num, name):
        k = {}
        for u in ("KSO4", "KF"):
            if u in num:
                k[u] = num[u]
        r = real_equil(num["T"], num.get("P", 0.0),
                       {"Sal": num["Sal"], "TSO4": num.get("TSO4", 0.0),
                        "TF": num.get("TF", 0.0)}, ops["opt_pH_scale"],
                       ops["opt_k_carbonic"], ops["opt_k_bisulfate"],
                       ops["opt_k_fluoride"], 3, Ks=k)
        return builtins.float(np.asarray(r[name]))

    def one(i):
        t, p = _at(temperature, i), _at(pressure, i)
        sal, tso4, tf = (_at(v, i) for v in tot)
        base = [("T", t), ("Sal", sal)]
        if has_sym(p) or p != 0:
            base.append(("P", p))
        r = {}
        r["KSO4"] = _at(Ks["KSO4"], i) if "KSO4" in Ks else opaque(
            f"pyco2.KSO4[{ops['opt_k_bisulfate']}]", base,
            lambda num: run(num, "KSO4"), positive=True)
        r["KF"] = _at(Ks["KF"], i) if "KF" in Ks else opaque(
            f"pyco2.KF[{ops['opt_k_fluoride']}]", base,
            lambda num: run(num, "KF"), positive=True)
        args = base + [("TSO4", tso4), ("TF", tf), ("KSO4", r["KSO4"]),
                       ("KF", r["KF"])]
        for k in K_ALL:
            if k in Ks:
                r[k] = _at(Ks[k], i)
            else:
                r[k] = opaque(
                    f"pyco2.{k}[{ops['opt_pH_scale']},"
                    f"{ops['opt_k_carbonic']}]", args,
                    lambda num, k=k: run(num, k), positive=True)
        r["K0"] = opaque("pyco2.K0", base, lambda num: run(num, "K0"),
                         positive=True)
        return r

    cols = [one(i) for i in range(n)] if n else [one(None)]
    for k in cols[0]:
        if k not in Ks:
            Ks[k] = sarr([c[k] for c in cols]) if n else cols[0][k]
    Ks.setdefault("k_alpha", 1e-7)
    Ks.setdefault("k_beta", 1e-7)
    return Ks


# --- PyCO2SYS.sys -----------------------------------------------------------
import inspect as _inspect

_SYS_SIG = _inspect.signature(real_sys)
_SYS_PARAMS = list(_SYS_SIG.parameters)
_SYS_DEFAULT = {k: p.default for k, p in _SYS_SIG.parameters.items()}
_SYS_POS = {
    "pH_free", "fCO2", "pCO2", "k_CO2", "HCO3", "CO3", "BOH4", "PO4", "HPO4",
    "H3PO4", "HSO4", "HF", "H3SiO4", "NH3", "HS", "OH", "CO2",
}
_SYS_PASS = (
    "total_ammonia", "total_phosphate", "total_silicate", "total_sulfide",
    "total_borate", "total_calcium", "total_fluoride", "total_sulfate",
    "total_alpha", "total_beta", "salinity", "temperature",
)
_SYS_KEYS = None


def sys_keys():
    """the result keys of the real function (two solved parameters)"""
    global _SYS_KEYS
    if _SYS_KEYS is None:
        _SYS_KEYS = {
            2: set(real_sys(2300, 2000, 1, 2, opt_pH_scale=3)),
            0: set(real_sys(salinity=35.0)),
        }
    return _SYS_KEYS


_SYS_CACHE = {}


def _sys_num(num, k):
    """one value of the real function, remembering recent calls"""
    key = tuple(sorted(num.items()))
    r = _SYS_CACHE.get(key)
    if r is None:
        if len(_SYS_CACHE) > 2000:
            _SYS_CACHE.clear()
        r = _SYS_CACHE[key] = real_sys(**{"opt_buffers_mode": 0, **num})
    return builtins.float(np.asarray(r[k]))


# species -> (total, its constants, numerator powers): mass balance with mass
# action, which is what PyCO2SYS computes from DIC and pH when the totals and
# constants on the free scale are given (checked against the real function by
# every strict replay)
_SPECIES = {
    "CO2": ("dic", 2, 0), "HCO3": ("dic", 2, 1), "CO3": ("dic", 2, 2),
    "H3PO4": ("total_phosphate", 3, 0), "H2PO4": ("total_phosphate", 3, 1),
    "HPO4": ("total_phosphate", 3, 2), "PO4": ("total_phosphate", 3, 3),
    "BOH4": ("total_borate", 1, 1), "H3SiO4": ("total_silicate", 1, 1),
    "NH3": ("total_ammonia", 1, 1), "HS": ("total_sulfide", 1, 1),
    "HSO4": ("total_sulfate", 1, 0), "HF": ("total_fluoride", 1, 0),
}
_CONSTANTS = {
    "dic": ("k_carbonic_1", "k_carbonic_2"), "total_borate": ("k_borate",),
    "total_phosphate": ("k_phosphoric_1", "k_phosphoric_2",
                        "k_phosphoric_3"),
    "total_silicate": ("k_silicate",), "total_ammonia": ("k_ammonia",),
    "total_sulfide": ("k_sulfide",), "total_sulfate": ("k_bisulfate",),
    "total_fluoride": ("k_fluoride",), "total_alpha": ("k_alpha",),
    "total_beta": ("k_beta",),
}
_ALK = (("HCO3", 1), ("CO3", 2), ("BOH4", 1), ("OH", 1), ("HPO4", 1),
        ("PO4", 2), ("H3PO4", -1), ("H3SiO4", 1), ("NH3", 1), ("HS", 1),
        ("Hfree", -1), ("HSO4", -1), ("HF", -1), ("alkalinity_alpha", 1),
        ("alkalinity_beta", 1))


def _speciation(a, k):
    """closed form of one species content or of the alkalinity (µmol/kg), or
    None where the inputs do not determine it"""
    if _num(a.get("opt_pH_scale", 1)) != 3 or _num(
            a.get("opt_k_carbonic", 10)) in (6, 7, 8):
        return None
    par = {_num(a.get(f"par{j}_type")): a.get(f"par{j}") for j in (1, 2)}
    if set(par) != {2, 3} or _num(a.get("pressure", 0)) != 0:
        return None
    h = 10.0 ** (-par[3])
    if k == "Hfree":
        return h * 1e6
    if k == "OH":
        return a["k_water"] / h * 1e6 if "k_water" in a else None
    if k == "alkalinity":
        out = 0
        for sp, n in _ALK:
            v = _speciation(a, sp)
            if v is None:
                return None
            out = out + n * v
        return out
    sp = _SPECIES.get(k)
    if k in ("alkalinity_alpha", "alkalinity_beta"):
        x = k.split("_")[1]
        t, kk = a.get("total_" + x), a.get("k_" + x)
        if t is None or _ak(t)[1] is None and _num(t) == 0:
            return 0.0
        if kk is None:
            return None
        # zero level of protons at pK 4.5
        if bool(kk >= 10.0 ** -4.5):
            return -(t * h / (kk + h))
        return t * kk / (kk + h)
    if sp is None:
        return None
    name, n, j = sp
    if name == "dic":
        t = par[2]
    elif name in a:
        t = a[name]
    elif name in ("total_borate", "total_fluoride", "total_sulfate"):
        return None
    else:
        t = 0.0
    if _ak(t)[1] is None and _num(t) == 0:
        return 0.0
    ks = [a.get(c) for c in _CONSTANTS[name]]
    if any(c is None for c in ks):
        return None
    terms = []
    for m in range(n + 1):
        p = 1.0
        for _ in range(n - m):
            p = p * h
        for c in ks[:m]:
            p = p * c
        terms.append(p)
    return t * terms[j] / sum(terms[1:], terms[0])


class SysResult(dict):
    def __init__(self, args, n):
        self.args = args
        self.n = n
        solved = "par1" in args and "par2" in args
        for k in sys_keys()[2 if solved else 0]:
            dict.__setitem__(self, k, None)

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if v is None:
            v = self.compute(k)
            dict.__setitem__(self, k, v)
        return v

    def get(self, k, d=None):
        return self[k] if k in self else d

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def compute(self, k):
        if self.n:
            return sarr([self.one(k, i) for i in range(self.n)])
        return self.one(k, None)

    def one(self, k, i):
        a = {kk: _at(v, i) for kk, v in self.args.items()}
        # direct results of the contract
        if k in _SYS_PASS and k in a:
            return a[k]
        if k in _SYS_PASS and k in _SYS_DEFAULT and _SYS_DEFAULT[k] is not None:
            return builtins.float(_SYS_DEFAULT[k])
        if k in ("total_alpha", "total_beta"):
            return 0.0
        name = {"total_borate": "TB", "total_fluoride": "TF",
                "total_sulfate": "TSO4"}.get(k)
        if name:
            # PyCO2SYS.sys gets these from salts.assemble
            r = salts_assemble(
                a.get("salinity", 35), 0.0, 0.0, 0.0, 0.0,
                _num(a.get("opt_k_carbonic", _SYS_DEFAULT["opt_k_carbonic"])),
                _num(a.get("opt_total_borate",
                           _SYS_DEFAULT["opt_total_borate"])))
            return r[name] * 1e6
        if k in a and k.startswith("k_"):
            return a[k]
        pt = [(a.get("par1_type"), a.get("par1")),
              (a.get("par2_type"), a.get("par2"))]
        for t, v in pt:
            t = _num(t)
            if t is None:
                continue
            if k == {1: "alkalinity", 2: "dic", 3: "pH"}.get(t):
                return v
            if k == "pH_free" and t == 3 and _num(a.get("opt_pH_scale", 1)) == 3:
                return v
        v = _speciation(a, k)
        if v is not None:
            return v
        keep = dict(a)
        if k.startswith("total_"):
            # a function of salinity and the borate/carbonic options only
            keep = {kk: v for kk, v in a.items() if kk in (
                "salinity", "opt_total_borate", "opt_k_carbonic")}
            if k != "total_borate":
                keep.pop("opt_total_borate", None)
        elif k.startswith("k_"):
            keep = {kk: v for kk, v in a.items() if not kk.startswith("par")
                    and kk not in ("total_alpha", "total_beta",
                                   "total_phosphate", "total_silicate",
                                   "total_ammonia", "total_sulfide",
                                   "total_calcium", "total_borate")
                    and not (kk.startswith("k_") and kk not in (
                        "k_bisulfate", "k_fluoride"))}
            if k == "k_CO2":
                keep = {kk: v for kk, v in keep.items()
                        if kk in ("salinity", "temperature")}
        args = []
        for kk in sorted(keep):
            v = keep[kk]
            const = _ak(v)[1] is None
            if kk in _SYS_DEFAULT and const and \
                    _SYS_DEFAULT[kk] is not None and _num(v) == _num(
                        _SYS_DEFAULT[kk]):
                continue
            if kk in ("total_alpha", "total_beta") and const and \
                    _num(v) == 0:
                continue
            if kk.startswith("opt_") or kk.endswith("_type"):
                v = _num(v)
            args.append((kk, v))

        def ev(num, k=k):
            num = {kk: int(v) if kk.startswith("opt_") or kk.endswith("_type")
                   else v for kk, v in num.items()}
            return _sys_num(num, k)

        pos = k.startswith(("total_", "k_")) or k in _SYS_POS - {"pH_free"}
        return opaque(f"pyco2.sys.{k}", args, ev, positive=pos)


def _num(v):
    if v is None:
        return None
    k, p = _ak(v)
    if p is not None:
        raise Unsupported("symbolic option")
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    return k


def pyco2_sys(*a, **k):
    args = dict(zip(_SYS_PARAMS, a))
    for kk, v in k.items():
        if kk not in _SYS_DEFAULT:
            raise TypeError(
                f"CO2SYS() got an unexpected keyword argument '{kk}'")
        args[kk] = v
    args = {kk: v for kk, v in args.items() if v is not None}
    if not _any_sym(args.values()):
        return real_sys(*a, **k)
    n = _bcast(args.values())
    return SysResult(args, n)


# --- scipy -------------------------------------------------------------------
class LR:
    def __init__(self, **k):
        self.__dict__.update(k)
        self._fields = ("slope", "intercept", "rvalue", "pvalue", "stderr")

    def __iter__(self):
        return iter([self.slope, self.intercept, self.rvalue, self.pvalue,
                     self.stderr])

    def __getitem__(self, i):
        return list(self)[i]


def linregress(x, y=None, *a, **k):
    if not (has_sym(x) or has_sym(y)):
        return scipy.stats.linregress(
            np.asarray(x, dtype=float), np.asarray(y, dtype=float), *a, **k)
    x, y = np.asarray(x), np.asarray(y)
    if x.size != y.size:
        raise ValueError("all the input array dimensions must match")
    n = x.size
    if n == 0:
        raise ValueError("Inputs must not be empty.")
    if n == 1:
        raise ValueError("Cannot calculate a linear regression if all x "
                         "values are identical")
    xm, ym = x.sum() / n, y.sum() / n
    dx, dy = x - xm, y - ym
    sxx, sxy, syy = (dx * dx).sum(), (dx * dy).sum(), (dy * dy).sum()
    slope = sxy / sxx
    intercept = ym - slope * xm

    def rv(num):
        xs = [num[f"x{i}"] for i in range(n)]
        ys = [num[f"y{i}"] for i in range(n)]
        return scipy.stats.linregress(xs, ys).rvalue

    r = opaque("lr.rvalue", [(f"x{i}", x[i]) for i in range(n)]
               + [(f"y{i}", y[i]) for i in range(n)], rv)
    (m, c), = r.p.items()
    at = T.STORE.atoms[m[0][0]]
    at.lo, at.hi = Fraction(-1), Fraction(1)
    lim = getattr(CUR["ctx"], "lr_min", None)
    if lim is not None:
        CUR["ctx"].assume(r >= lim)
    return LR(slope=slope, intercept=intercept, rvalue=r, pvalue=math.nan,
              stderr=math.nan, intercept_stderr=math.nan)


class LsqCall:
    def __init__(self, fun, x0, args, kwargs, opts):
        self.fun, self.x0, self.args = fun, x0, args
        self.kwargs, self.opts = kwargs, opts

    def residual(self, x):
        x = list(x)
        a = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            a[i] = v
        r = self.fun(a.view(SArr), *self.args, **self.kwargs)
        return r


_lsq_open = []      # names of the unknowns of the problems being set up


def _lsq_names(n):
    """names for the unknowns, distinct from those of the problems this one
    is nested in"""
    for k in itertools.count():
        names = [f"lsq{n}_{i}" + (f"_{k}" if k else "") for i in range(n)]
        if not any(x in o for o in _lsq_open for x in names):
            return names


def placeholder(name):
    a = T.STORE.get("var", name, name, nice=(0.0, 1.0))
    return SymReal(T.p_atom(a))


def least_squares(fun, x0, jac="2-point", args=(), kwargs=None, **opts):
    """contract: the minimiser of the sum of squared residuals, as a function
    of the residual vector alone (order and common scale of the residuals and
    the starting point do not matter: unique minimum assumed)"""
    kwargs = kwargs or {}
    scalar = np.ndim(x0) == 0 and not isinstance(x0, (list, tuple))
    xs = [x0] if scalar else list(x0)
    call = LsqCall(fun, xs, args, kwargs, opts)
    ctx = CUR["ctx"]
    if not hasattr(ctx, "lsq_calls"):
        ctx.lsq_calls = []
    ctx.lsq_calls.append(call)
    n = len(xs)
    if n == 1:
        hook = getattr(ctx, "lsq_root", None)
        if hook is not None:
            r = hook(call)
            if r is not None:
                return r
    names = _lsq_names(n)
    ph = [placeholder(x) for x in names]
    _lsq_open.append(names)
    try:
        res = call.residual(ph)
    finally:
        _lsq_open.pop()
    flat = [v for v in np.ravel(np.asarray(res, dtype=object))]
    if len(flat) < n and opts.get("method") == "lm":
        raise ValueError("Method 'lm' doesn't work when the number of "
                         "residuals is less than the number of variables.")
    if len(flat) == 0:
        raise ValueError("`fun` must return at least 1-d array_like")
    polys = []
    for v in flat:
        if isinstance(v, builtins.float) and v != v:
            raise ValueError("Residuals are not finite in the initial point.")
        polys.append(T._coerce(v))
    if n == 1 and len(flat) == 1:
        sol = _affine_root(polys[0], ph[0])
        if sol is not None:
            x = sarr([sol])
            f = call.residual([sol])
            return scipy.optimize.OptimizeResult(
                x=x, fun=sarr(np.ravel(np.asarray(f, dtype=object))),
                success=True, status=1)
    m = _lsq_match(ctx, polys, names)
    if m is not None:
        polys = m
    keyp = _lsq_key(polys)
    changed = _lsq_changed(opts)
    if changed:
        keyp = (keyp, changed)
    x = []
    for i in range(n):
        a = T.STORE.get(
            "opq", ("lsq", i, n, keyp), f"argmin{i}", data=tuple(polys))
        if a.evalf is None:
            a.evalf = _lsq_evalf(polys, names, i, xs)
        x.append(SymReal(T.p_atom(a)))
    hook = getattr(ctx, "on_lsq", None)
    if hook is not None:
        hook(x)
    f = call.residual(x)
    fun_val = sarr(np.ravel(np.asarray(f, dtype=object)))
    return scipy.optimize.OptimizeResult(
        x=sarr(x), fun=fun_val, success=True, status=1,
        cost=(fun_val * fun_val).sum() / 2)


def _lsq_changed(opts):
    """options with which the result is another than the least-squares
    minimum (a robust loss; bounds, which may hold it back)"""
    out = []
    loss = opts.get("loss", "linear")
    if loss not in (None, "linear"):
        out.append(("loss", str(loss), str(opts.get("f_scale", 1.0))))
    b = opts.get("bounds")
    if b is not None:
        try:
            free = all(math.isinf(builtins.float(v))
                       for v in np.ravel(np.asarray(b, dtype=object)))
        except (TypeError, ValueError):
            free = False
        if not free:
            out.append(("bounds", repr(b)))
    return tuple(out)


def _lsq_match(ctx, polys, names):
    """an earlier residual vector equal to this one up to order, sign and a
    common power of ten (decided by the solver), whose minimiser is therefore
    the same"""
    from . import engine as E

    known = getattr(ctx, "lsq_known", None)
    if known is None:
        known = ctx.lsq_known = []
    env = dict(ctx.env)
    for ns in _lsq_open + [names]:
        for i, x in enumerate(ns):
            env[x] = (Fraction(23, 10**4), Fraction(7, 5))[i % 2]

    def values(ps):
        cache = {}
        return [builtins.float(T.p_eval(p, env, E.mp, cache)) for p in ps]

    try:
        mine = values(polys)
    except Exception:
        mine = None
    if mine is None:
        return None
    for other, vals in known:
        if len(other) != len(polys):
            continue
        if other == polys:
            return other
        pairs = _pairing(mine, vals)
        if pairs is None:
            continue
        if all(E.decide_eq(polys[i], T.p_scale(other[j], f), ctx.pc,
                           timeout=2000)[0] == "unsat"
               for i, j, f in pairs):
            return other
    known.append((polys, mine))
    return None


def _pairing(a, b):
    big = max(abs(v) for v in b) or 1.0
    for k in (0, 6, -6, 3, -3):
        s = 10.0**k
        left = list(range(len(b)))
        out = []
        for i, v in enumerate(a):
            hit = next((j for j in left if abs(abs(v) - s * abs(b[j]))
                        <= 1e-9 * max(abs(v), s * big * 1e-3)), None)
            if hit is None:
                out = None
                break
            left.remove(hit)
            sg = 1 if v * b[hit] >= 0 else -1
            out.append((i, hit, sg * Fraction(10) ** k))
        if out is not None:
            return out
    return None


def _lsq_key(polys):
    keys = []
    # common scale: divide by the absolute value of one fixed coefficient
    nz = [p for p in polys if p]
    if nz:
        ref = max(nz, key=lambda p: T.p_key(p))
        c = abs(ref[max(ref)])
        keys = [(_sgn_key(T.p_scale(p, 1 / c)),) if p else () for p in polys]
    return tuple(sorted(keys, key=repr))


def _sgn_key(p):
    return min(T.p_key(p), T.p_key(T.p_scale(p, -1)), key=repr)


_lsq_cache = {}


def _free_of_lsq(polys, names):
    bad = {T.STORE.index[("var", x)].id for x in names}
    out = []
    for p in polys:
        for k in T.atoms_of(p):
            if k not in out and not (T.atoms_of({((k, 1),): 1}) & bad):
                out.append(k)
    return out


def _lsq_evalf(polys, names, i, xs):
    def ev(evp, env):
        k = (id(polys), tuple(sorted((a, b) for a, b in env.items()
                                     if a not in names)))
        if k not in _lsq_cache:
            x0 = []
            for x in xs:
                kk, p = _ak(x)
                x0.append(builtins.float(evp(p)) if p is not None
                          else builtins.float(kk))

            def f(v):
                e2 = dict(env)
                for x, t in zip(names, v):
                    e2[x] = builtins.float(t)
                cache = dict(fixed)
                return np.array([T.p_eval(p, e2, T.FloatCtx, cache)
                                 for p in polys])

            # everything that does not depend on the unknowns, once
            fixed = {}
            free = _free_of_lsq(polys, names)
            for kk in free:
                try:
                    T.a_eval(kk, env, T.FloatCtx, fixed)
                except (ValueError, ZeroDivisionError, OverflowError,
                        KeyError):
                    pass

            if len(_lsq_cache) > 500:
                _lsq_cache.clear()
            try:
                r = scipy.optimize.least_squares(
                    f, x0, x_scale=[max(abs(v), 1e-6) if v else 1.0 for v in x0],
                    xtol=1e-14, ftol=1e-14, gtol=1e-15, max_nfev=100)
            except (OverflowError, ZeroDivisionError):
                raise ValueError("no minimum")
            _lsq_cache[k] = (r.x, polys)
        return _lsq_cache[k][0][i]

    return ev


def _affine_root(p, ph):
    (m, _), = ph.p.items()
    k = m[0][0]
    a, b = {}, {}
    for mm, c in p.items():
        d = dict(mm)
        e = d.pop(k, 0)
        for kk in d:
            if k in T.atoms_of({((kk, 1),): 1}):
                return None
        if e == 0:
            a[mm] = c
        elif e == 1:
            b[tuple(sorted(d.items()))] = c
        else:
            return None
    if not b:
        return None
    return SymReal(T.p_scale(T.p_divide(a, b), -1))


def _congruent(name, args):
    """earlier arguments of the same function that equal these (decided by
    the solver), or these"""
    from . import engine as E

    ctx = CUR["ctx"]
    if not hasattr(ctx, "congruent"):
        ctx.congruent = {}
    known = ctx.congruent.setdefault((name, len(args)), [])
    try:
        cache = {}
        mine = [builtins.float(T.p_eval(T._coerce(v), ctx.env, E.mp, cache))
                for _, v in args]
    except Exception:
        return args
    for other, vals in known:
        if not all(abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12
                   for a, b in zip(mine, vals)):
            continue
        if all(T._coerce(v) == T._coerce(w) or E.decide_eq(
                T._coerce(v), T._coerce(w), ctx.pc, timeout=2000)[0]
               == "unsat" for (_, v), (_, w) in zip(args, other)):
            return other
    known.append((args, mine))
    return args


def pchip_interpolate(xi, yi, x, *a, **k):
    if not (has_sym(xi) or has_sym(yi) or has_sym(x)):
        return scipy.interpolate.pchip_interpolate(
            np.asarray(xi, dtype=float), np.asarray(yi, dtype=float), x, *a, **k)
    xi, yi = list(np.ravel(xi)), list(np.ravel(yi))
    scalar = np.ndim(x) == 0
    xs = [x] if scalar else list(x)
    if getattr(CUR["ctx"], "smooth_lines", False):
        # drawing only: exact at the ends, nothing is asked in between
        return sarr([yi[0]] + [0.0] * (len(xs) - 2) + [yi[-1]])
    out = []
    nodes = {_ak(v)[0]: y for v, y in zip(xi, yi)}
    for v in xs:
        kk = _ak(v)[0]
        if kk in nodes:
            out.append(nodes[kk])
            continue

        def ev(num):
            n = len(xi)
            return builtins.float(scipy.interpolate.pchip_interpolate(
                [num[f"x{i}"] for i in range(n)],
                [num[f"y{i}"] for i in range(n)], num["at"]))

        out.append(opaque("pchip", _congruent(
            "pchip", [(f"x{i}", q) for i, q in enumerate(xi)]
            + [(f"y{i}", q) for i, q in enumerate(yi)] + [("at", v)]), ev))
    return out[0] if scalar else sarr(out)


# --------------------------------------------------------------------------
NP = Proxy(np, _mk_np())
PD = Proxy(pd, PD_OV)
MATH = Proxy(math, _mk_math())
SALTS = Proxy(pyco2.salts, {"assemble": salts_assemble})
EQUIL = Proxy(pyco2.equilibria, {"assemble": equil_assemble})
PYCO2 = Proxy(pyco2, {"sys": pyco2_sys, "salts": SALTS, "equilibria": EQUIL})
STATSP = Proxy(scipy.stats, {"linregress": linregress})
OPT = Proxy(scipy.optimize, {"least_squares": least_squares})
INTERP = Proxy(scipy.interpolate, {"pchip_interpolate": pchip_interpolate})
SCIPY = Proxy(scipy, {"stats": STATSP, "optimize": OPT, "interpolate": INTERP})

REPLACE = {
    id(np): NP, id(pd): PD, id(math): MATH, id(pyco2): PYCO2,
    id(pyco2.salts): SALTS, id(pyco2.equilibria): EQUIL,
    id(real_salts): salts_assemble, id(real_equil): equil_assemble,
    id(real_sys): pyco2_sys, id(scipy.stats): STATSP,
    id(scipy.optimize): OPT, id(scipy.interpolate): INTERP, id(scipy): SCIPY,
    id(scipy.stats.linregress): linregress,
    id(scipy.optimize.least_squares): least_squares,
    id(scipy.interpolate.pchip_interpolate): pchip_interpolate,
}
for _n, _f in NP._ov.items():
    REPLACE.setdefault(id(getattr(np, _n)), _f)
for _n in ("exp", "log", "log10", "sqrt"):
    REPLACE.setdefault(id(getattr(math, _n)), MATH._ov[_n])


def modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == REPO_PKG or n.startswith(REPO_PKG + "."))]


@contextlib.contextmanager
def installed(ctx):
    saved = []
    CUR["ctx"] = ctx
    TAGS.reset()
    T.HOOK.floats = TAGS
    for m in modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            r = REPLACE.get(id(v))
            if r is not None:
                saved.append((d, k, v))
                d[k] = r
        if "float" not in d:
            saved.append((d, "float", None))
            d["float"] = SymFloat
    pd.Series._reduce = _series_reduce
    Block.coerce_to_target_dtype = _coerce_block
    try:
        yield
    finally:
        pd.Series._reduce = _orig_reduce
        Block.coerce_to_target_dtype = _orig_coerce
        for d, k, v in saved:
            if v is None and k == "float":
                d.pop(k, None)
            else:
                d[k] = v
        T.HOOK.floats = None
        CUR["ctx"] = None


class FunctionRecorder:
    def __init__(self):
        self.names = set()

    def __call__(self, frame, event, arg):
        if event != "call":
            return
        fn = frame.f_code.co_filename
        i = fn.rfind("/calkulate/")
        if i >= 0 and "/site-packages/" not in fn:
            mod = fn[i + 11:-3].replace("/", ".")
            q = frame.f_code.co_qualname
            if "<" not in q:
                self.names.add(f"{mod}.{q}")
