"""Plots show what was solved, and leave it as it was."""

import math
import os
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

import calkulate as calk  # noqa: E402

from props.C16 import nan  # noqa: E402
from props.C17 import table  # noqa: E402
from props.C19 import data_file, hold, values  # noqa: E402
from props.C24 import wide_file  # noqa: E402
from props.common import scratch  # noqa: E402
from symx.engine import Harness  # noqa: E402

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "PyCO2SYS and SciPy least squares by contract (as in C24)",
    "matplotlib is replaced by a recorder of what is drawn; replays draw on "
    "real axes too, to see that nothing is refused",
    "smooth lines between points: only their ends",
]
SIGN = {"alkalinity_estimate": 1, "HCO3": 1, "CO3": 2, "BOH4": 1, "PO4": 2,
        "HPO4": 1, "H3PO4": -1, "HSO4": -1, "HF": -1, "H3SiO4": 1, "NH3": 1,
        "HS": 1, "H": -1, "OH": 1, "alk_alpha": 1, "alk_beta": 1}


class Recorder:
    """stands for axes and figures"""

    def __init__(self):
        self.calls = []
        self.transAxes = None
        self.title = ""

    def get_xlim(self):
        return (0.0, 5.0)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            if name == "set_title":
                self.title = a[0] if a else k["label"]
            return self
        return f

    def each(self, *names):
        return [(a, k) for n, a, k in self.calls if n in names]

    def points(self):
        """(x, y, filled, marker, colour)"""
        out = []
        for a, k in self.each("scatter"):
            x = list(a[0] if a else k["x"])
            y = list(a[1] if len(a) > 1 else k["y"])
            c = k.get("c", k.get("color", k.get("facecolor", k.get(
                "facecolors"))))
            many = not isinstance(c, str) and c is not None and len(
                np.shape(c)) == 1 and len(c) == len(x)
            if len(x) != len(y):
                raise ValueError("x and y must be the same size")
            for i in range(len(x)):
                ci = c[i] if many else c
                filled = not (isinstance(ci, str) and ci == "none")
                out.append((x[i], y[i], filled, k.get("marker"), ci))
        return out

    def labels(self, ctx):
        """the legend tells the same as the markers"""
        for i, (a, k) in enumerate(self.each("scatter")):
            text = str(k.get("label") or "").lower()
            c = k.get("c", k.get("color"))
            hollow = isinstance(c, str) and c == "none"
            if "used" in text:
                ctx.true(f"legend {i}: {text}", hollow == ("unused" in text))
            if "good" in text or "bad" in text:
                ctx.true(f"legend {i}: {text}",
                         (k.get("marker") == "x") == ("bad" in text))

    def lines(self):
        out = []
        for a, k in self.each("plot"):
            out.append((list(a[0]), list(a[1])))
        return out


class drawing:
    """new figures and axes are recorders; files are not written"""

    def __enter__(self):
        self.new, self.saved, self.old = [], [], {}

        def subplots(*a, **k):
            self.new.append(Recorder())
            return self.new[-1], self.new[-1]

        for k, f in (("subplots", subplots),
                     ("tight_layout", lambda *a, **k: None),
                     ("savefig", lambda f, *a, **k: self.saved.append(f))):
            self.old[k] = getattr(plt, k)
            setattr(plt, k, f)
        return self

    def __exit__(self, *e):
        for k, f in self.old.items():
            setattr(plt, k, f)


def key(ctx, v):
    if isinstance(v, (int, float, np.floating)):
        return f"{v:.9g}" if ctx.sym else float(f"{v:.9g}")
    return repr(v)


def match(ctx, label, got, want):
    """the same (x, y, ...) in any order; equal tails (flags)"""
    if not ctx.true(f"{label}: number", len(got) == len(want),
                    f"{len(got)} drawn, {len(want)} expected"):
        return

    def k(p):
        return (repr(p[2:]), key(ctx, p[0]), key(ctx, p[1]))
    for i, (g, w) in enumerate(zip(sorted(got, key=k), sorted(want, key=k))):
        ctx.true(f"{label} {i}: kind", g[2:] == w[2:], f"{g!r}, {w!r}")
        ctx.eq(f"{label} {i}: x", g[0], w[0], trace=False)
        ctx.eq(f"{label} {i}: y", g[1], w[1], atol=1e-9, trace=False)


def numbers(ctx, text):
    out = [float(v) for v in re.findall(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?",
                                        text)]
    if ctx.sym:
        from symx.shims import TAGS

        out = [TAGS.map(v) for v in out]
    return out


def shown(ctx, label, text, x, dec):
    """the number is in the text, to so many decimals"""
    if ctx.sym:
        from symx.shims import TAGS

        want = TAGS.map(float(format(x, f".{dec}f")))
        ctx.true(label, any(v is want or repr(v) == repr(want)
                            for v in numbers(ctx, text)), text)
    else:
        ctx.true(label, any(abs(v - x) <= 0.5001 * 10.0**-dec
                            for v in numbers(ctx, text)), f"{text}: {x!r}")


def snapshot(tt):
    return tt.titration.copy(), tt.row.copy()


def unchanged(ctx, tt, snap):
    for name, a, b in (("table", tt.titration, snap[0]),
                       ("row", tt.row.to_frame().T, snap[1].to_frame().T)):
        if not ctx.true(f"{name} keeps its columns",
                        list(a.columns) == list(b.columns)):
            continue
        ctx.true(f"{name} keeps its rows", list(a.index) == list(b.index))
        for k in a.columns:
            for i, (x, y) in enumerate(zip(list(a[k]), list(b[k]))):
                if x is y or (nan(x) and nan(y)):
                    continue
                if isinstance(y, (str, bool, np.bool_)) or y is None:
                    ctx.true(f"{name} keeps {k} {i}", x == y)
                else:
                    ctx.eq(f"{name} keeps {k} {i}", x, y, trace=False)


def log10(v):
    return v.log10() if hasattr(v, "log10") else math.log10(v)


def nums(t, k):
    return list(t[k])


def flagged(t, y, used):
    return [(m * 1e3, v, bool(u)) for m, v, u in zip(
        nums(t, "titrant_mass"), nums(t, y), nums(t, used))]


def flat(points):
    return [p[:3] for p in points]


def titration(ctx, mode, plot, opts=("none",), wide=True, window=None,
              double=False):
    d = scratch(ctx)
    ctx.smooth_lines = True
    o = values(ctx, ctx.choice("options", opts) if len(opts) > 1 else opts[0])
    if mode in ("emf", "pH_adjust"):
        if mode == "emf":
            o["emf0_init"] = 600.0
        o["double"] = double
    lims = ctx.choice("window", window) if window else {}
    o.update(lims)
    name = (wide_file if wide else data_file)(ctx, d, mode)
    if not wide and double:
        hold(ctx, os.path.join(d, name), mode)
    if plot == "components":
        return components(ctx, dict(
            file_name=name, file_path=d, salinity=35.0, analyte_mass=0.1,
            titrant_molinity=0.1, solve_mode=mode, **o))
    sal = ctx.real("salinity", lo=20, hi=43, nice=(33, 36))
    mol = ctx.real("molinity", lo=0.01, hi=1, nice=(0.099, 0.101))
    ma = ctx.real("analyte_mass", lo=0.05, hi=0.3, nice=(0.0995, 0.1005))
    row = dict(file_name=name, file_path=d, salinity=sal, analyte_mass=ma,
               titrant_molinity=mol, solve_mode=mode, **o)
    tt = calk.Titration(table([row]).iloc[0])
    snap = snapshot(tt)
    t = snap[0]
    kw = {}
    if plot == "pH":
        kw = ctx.choice("keywords", [{}, {"show_gran": False}])
    axes = ctx.choice("axes", ["given", "new"])
    with drawing() as dr:
        if axes == "given":
            ax = Recorder()
            getattr(tt, "plot_" + plot)(ax=ax, **kw)
            ctx.true("no other figure", not dr.new)
        else:
            getattr(tt, "plot_" + plot)(**kw)
            if not ctx.true("one figure", len(dr.new) == 1):
                return
            ax = dr.new[0]
    unchanged(ctx, tt, snap)
    ax.labels(ctx)
    pts = flat(ax.points())
    levels = [a[0] if a else k["y"] for a, k in ax.each("axhline")]
    if plot == "emf":
        match(ctx, "point", pts, [(m * 1e3, v, True) for m, v in zip(
            nums(t, "titrant_mass"), nums(t, "emf"))])
    elif plot == "pH":
        want = flagged(t, "pH", "used")
        if kw.get("show_gran", True) and mode == "emf":
            want += flagged(t, "gran_pH", "gran_used")
        match(ctx, "point", pts, want)
        bands = ax.each("fill_between", "axhspan")
        if ctx.true("one band", len(bands) == 1):
            a = [v for v in bands[0][0] if np.ndim(v) == 0]
            a += [bands[0][1][k] for k in ("y1", "y2", "ymin", "ymax")
                  if k in bands[0][1]]
            lo, hi = [3 if nan(lims.get("pH_min", math.nan))
                      else lims["pH_min"],
                      4 if nan(lims.get("pH_max", math.nan))
                      else lims["pH_max"]]
            if ctx.true("band limits", len(a) == 2):
                ctx.eq("band from", a[0], lo)
                ctx.eq("band to", a[1], hi)
    elif plot in ("gran_emf0", "emf0_gran"):
        match(ctx, "point", pts, flagged(t, "gran_emf0", "gran_used"))
        if ctx.true("one level", len(levels) == 1):
            ctx.eq("EMF0", levels[0], tt.gran_emf0)
        shown(ctx, "EMF0 in the title", ax.title, tt.gran_emf0, 2)
    elif plot in ("gran_alkalinity", "alkalinity_gran"):
        match(ctx, "point", pts, flagged(t, "gran_func", "gran_used"))
        lr = tt.sr.ggr.lr if mode == "emf" else tt.sr.lr
        a = tt.gran_alkalinity if mode == "emf" else tt.alkalinity
        x0 = -lr.intercept / lr.slope
        lines = ax.lines()
        if ctx.true("one fit", len(lines) == 1):
            xs, ys = lines[0]
            x1 = nums(t, "titrant_mass")[-1]
            want = [(x0 * 1e3, 0.0),
                    (x1 * 1e3, lr.intercept + lr.slope * x1)]
            if ctx.true("two ends of the fit", len(xs) == len(ys) == 2):
                ends = list(zip(xs, ys))
                if not ctx.sym:
                    ends.sort(), want.sort()
                for i in range(2):
                    ctx.eq(f"fit {i}: x", ends[i][0], want[i][0], trace=False)
                    ctx.eq(f"fit {i}: y", ends[i][1], want[i][1], atol=1e-12,
                           trace=False)
        v = [b[0] if b else k["x"] for b, k in ax.each("axvline")]
        if ctx.true("one end point", len(v) == 1):
            ctx.eq("end point", v[0], x0 * 1e3)
        shown(ctx, "alkalinity in the title", ax.title, a, 1)
    elif plot == "alkalinity":
        match(ctx, "point", pts, [
            (x, y * 1e6, u) for x, y, u in flagged(
                t, "alkalinity_estimate", "used")])
        if ctx.true("one level", len(levels) == 1):
            ctx.eq("alkalinity", levels[0], tt.alkalinity)
        shown(ctx, "alkalinity in the title", ax.title, tt.alkalinity, 1)
        shown(ctx, "number of points in the title", ax.title,
              sum(bool(u) for u in t.used), 0)
    if not ctx.sym:
        getattr(tt, "plot_" + plot)(**kw)
        plt.close("all")


def components(ctx, row):
    """every contribution, for any content of the table"""
    tt = calk.Titration(table([row]).iloc[0])
    n = len(tt.titration)
    # what is not there is zero, throughout or at one point
    absent = ctx.choice("absent", [(), ("PO4", "HPO4", "H3PO4"),
                                   ("alk_alpha", "alk_beta", "HS"),
                                   ("alkalinity_estimate", "NH3", "CO3")])
    some = ctx.choice("where", ["all", 0, n - 1])
    for k in SIGN:
        v = [ctx.real(f"{k}[{i}]", lo=1e-12, hi=0.1, nice=(1e-6, 1e-3))
             for i in range(n)]
        if k in absent:
            v = [0.0 if some in ("all", i) else v[i] for i in range(n)]
        tt.titration[k] = ctx.arr(v)
    snap = snapshot(tt)
    t = snap[0]
    kw = ctx.choice("keywords", [{}, {"log_scale": False}])
    with drawing() as dr:
        if kw:
            tt.plot_components(**kw)
        else:
            dr.new.append(Recorder())
            tt.plot_components(ax=dr.new[0])
    if not ctx.true("one figure", len(dr.new) == 1):
        return
    ax = dr.new[0]
    unchanged(ctx, tt, snap)
    want, ends = [], [[], []]
    for k, s in SIGN.items():
        if k in absent:
            continue
        y = nums(t, k)
        if kw:
            y = [v * s * 1e6 for v in y]
        else:
            y = [-log10(v * abs(s)) for v in y]
        p = [(m * 1e3, v, bool(u)) for m, v, u in zip(
            nums(t, "titrant_mass"), y, nums(t, "used"))]
        want += p
        for j in (0, -1):
            ends[j].append(p[j][:2])
    match(ctx, "component", flat(ax.points()), want)
    for j in (0, -1):
        match(ctx, ("start", "end")[j], [
            (x[j], y[j]) for x, y in ax.lines()], ends[j])
    if not ctx.sym:
        tt.plot_components(**kw)
        plt.close("all")


INDEX = [None, [10, 20, 30, 40, 50], list("abcde"), [4, 3, 2, 1, 0]]


def dataset(ctx, plot, n, marks):
    """one row per analysis, good and bad references apart"""
    good = (ctx.choice("good", [[True, True], [True, False], [False, True]])
            + [True, False, True, True])[:n]
    batches = ctx.choice("batches", [[1, 1, 1, 1], [1, 2, 1, 2],
                                     ["b", "b", "a", "a"]])[:n]
    sample = ctx.choice("sample", [None, 0, n - 1])
    xs, here, mean, off = [], [], [], []
    for i in range(n):
        xs.append(ctx.real(f"x{i}", lo=-1000, hi=1000, nice=(1, 10)))
        here.append(math.nan if sample == i else ctx.real(
            f"here{i}", lo=0.01, hi=1, nice=(0.09, 0.11)))
        off.append(math.nan if sample == i else ctx.real(
            f"offset{i}", lo=-3000, hi=3000, nice=(-5, 5)))
        mean.append(ctx.real(f"mean{i}", lo=0.01, hi=1, nice=(0.09, 0.11)))
    ds = {"x": xs, "titrant_molinity_here": here, "titrant_molinity": mean,
          "alkalinity_offset": off, "analysis_batch": batches}
    mark = [None if marks == "null" and sample == i else g
            for i, g in enumerate(good)]
    ds["reference_good"] = mark
    real = [bool(m) for m in mark]
    index = ctx.choice("index", INDEX)
    df = pd.DataFrame(ds, index=index[:n] if index else None)
    if index and index[0] != 4:
        df = calk.Dataset(df)
    before = df.copy()
    kw = {}
    xvar = ctx.choice("xvar", [None, "x"])
    if xvar:
        kw["xvar"] = "x"
    bad = ctx.choice("show_bad", [None, True, False])
    if bad is not None:
        kw["show_bad"] = bad
    lines = ctx.choice("show_batches", [None, False])
    if lines is not None:
        kw["show_batches"] = lines
    save = "fig.png" if index else None
    if save:
        kw["figure_fname"] = save
    with drawing() as dr:
        getattr(calk.plot, plot)(df, **kw)
    ctx.true("saved", dr.saved == ([save] if save else []))
    if not ctx.true("one figure", len(dr.new) == 1):
        return
    dr.new[0].labels(ctx)
    y = here if plot == "titrant_molinity" else off
    x = xs if xvar else [float(i) for i in range(n)]
    pts = [(p[0] if xvar else float(p[0]), p[1], p[3] == "x", p[4])
           for p in dr.new[0].points() if not nan(p[1])]
    want = [(x[i], y[i], not real[i]) for i in range(n)
            if not nan(y[i]) and (real[i] or bad is not False)]
    match(ctx, "row", [p[:3] for p in pts], want)
    if plot == "titrant_molinity":
        at = []
        if lines is not False:
            for b in sorted(set(batches)):
                at.append([(x[i], mean[i]) for i in range(n)
                           if batches[i] == b])
        got = dr.new[0].lines()
        if ctx.true("one line per batch", len(got) == len(at)):
            used = [len(a) for a in at]
            ctx.true("line lengths", sorted(used) == sorted(
                len(g[0]) for g in got))
            match(ctx, "batch", [q for g in got for q in zip(*g)],
                  [q for a in at for q in a])
    elif lines is not False:
        good_rows = [p for p in dr.new[0].points() if p[3] != "x"]
        rows = [i for i in range(n) if real[i]]
        if ctx.true("good rows", len(good_rows) == len(rows)):
            for i, p in zip(rows, good_rows):
                for j, q in zip(rows, good_rows):
                    ctx.true(f"colour {i} {j}", (p[4] == q[4])
                             == (batches[i] == batches[j]))
    ctx.true("columns kept", list(df.columns) == list(before.columns)
             and list(df.index) == list(before.index))
    for k in before.columns:
        for i, (a, b) in enumerate(zip(list(df[k]), list(before[k]))):
            ctx.true(f"{k} {i} kept", a is b or (nan(a) and nan(b))
                     or bool(a == b))
    if not ctx.sym:
        kw.pop("figure_fname", None)
        getattr(calk.plot, plot)(df, **kw)
        plt.close("all")


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1800)
    out = []
    null = [{}, dict(pH_min=3.1, pH_max=3.9), dict(pH_min=math.nan),
            dict(pH_max=math.nan, pH_min=2.5), dict(pH_max=None)]
    for mode, plots in (
            ("emf", ("emf", "pH", "gran_emf0", "gran_alkalinity",
                     "alkalinity")),
            ("pH", ("pH", "alkalinity", "components")),
            ("pH_gran", ("gran_alkalinity", "pH", "alkalinity"))):
        for plot in plots:
            sets = ("none",) if plot == "components" else ("none", "titrant")
            out.append(H(f"{plot}_{mode}", titration, f"5 points, {mode}",
                         dict(mode=mode, plot=plot, opts=sets,
                              window=null if plot == "pH" else None), **lim))
            if mode == "pH" and plot != "components":
                out.append(H(f"{plot}_{mode}_free", titration,
                             f"3 points, {mode}, symbolic data",
                             dict(mode=mode, plot=plot, wide=False), **lim))
    for name in ("emf0_gran", "alkalinity_gran"):
        out.append(H(name, titration, "5 points, former name",
                     dict(mode="emf", plot=name), **lim))
    for plot in ("titrant_molinity", "alkalinity_offset"):
        for marks in ("all", "null"):
            out.append(H(f"{plot}_{marks}", dataset, "3 rows" if q else
                         "4 rows", dict(plot=plot, n=3 if q else 4,
                                        marks=marks), **lim))
    return out
