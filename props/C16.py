"""Batch titrant molinity: mean over the batch's good references."""

import math
import os

import numpy as np
import pandas as pd

import calkulate as calk
from calkulate import files

from props.common import scratch
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754",
    "the molinity of each row on its own is what files.calibrate returns for "
    "it (see C14); least squares with one unknown by contract (the root)",
    "titration data in the files are fixed numbers; certified alkalinities "
    "are symbolic, labels, marks and row orders explored exhaustively",
]
OPT = dict(solve_mode="pH_gran", titrant_amount_unit="kg")


def data_file(folder, name, k=0):
    """a strong-acid titration with known pH, one per row"""
    with open(os.path.join(folder, name), "w") as f:
        f.write("a\nb\n")
        for i in range(4):
            m = 2.5e-3 + 1.5e-4 * i + 1e-6 * k
            h = (m * 0.1 - 0.1 * 2300e-6) / (0.1 + m)
            f.write(f"{m}\t{-math.log10(h):.9f}\t25.0\n")
    return name


def nan(x):
    return isinstance(x, float) and x != x or x is None or x is pd.NA


def same(ctx, label, got, want):
    if nan(want):
        ctx.true(label, nan(got), f"{got!r} expected no value")
    else:
        ctx.eq(label, got, want)


def mean(xs):
    return sum(xs) / len(xs) if xs else math.nan


def run(ctx, n, rows, marks=True, batch=True, index=None, again=False,
        cls="Dataset", labels=None):
    """rows: per row (batch choices, mark choices, kind choices)"""
    d = scratch(ctx)
    cert, batches, good, names, kinds = [], [], [], [], []
    pair = ctx.choice("labels", labels) if labels else None
    for i in range(n):
        bs, gs, ks = rows[i]
        if pair:
            bs = [pair[bs[0]]]
        batches.append(ctx.choice(f"batch{i}", bs) if len(bs) > 1 else bs[0])
        good.append(ctx.choice(f"good{i}", gs) if len(gs) > 1 else gs[0])
        kind = ctx.choice(f"kind{i}", ks) if len(ks) > 1 else ks[0]
        kinds.append(kind)
        names.append(data_file(d, f"{i}.dat", i) if kind != "missing"
                     else f"{i}.dat")
        # the first row's molinity is symbolic through its certified value
        cert.append(math.nan if kind == "sample" else ctx.real(
            f"certified{i}", lo=500, hi=5000, nice=(2200, 2400)))
    ds = {"file_name": names, "file_path": [d] * n, "salinity": [35.0] * n,
          "analyte_mass": [0.1] * n, "alkalinity_certified": cert,
          "file_good": [k != "bad" for k in kinds]}
    if batch:
        ds["analysis_batch"] = batches
    if marks:
        ds["reference_good"] = good
    df = pd.DataFrame(ds, index=index[:n] if index else None)
    if cls == "Dataset":
        df = calk.Dataset(df)
        out = df.calibrate(**OPT)
    else:
        out = calk.calibrate(df, **OPT)
    if again:
        out = calk.calibrate(df, **OPT)
    # reference: every row on its own, then plain arithmetic
    here = []
    for i in range(n):
        if kinds[i] == "ref":
            here.append(files.calibrate(
                names[i], cert[i], 35.0, file_path=d, analyte_mass=0.1,
                **OPT)["x"][0])
        else:
            here.append(math.nan)
    b = batches if batch else [0] * n
    for i in range(n):
        same(ctx, f"own molinity {i}", df["titrant_molinity_here"].iloc[i],
             here[i])
        if nan(b[i]):
            want = math.nan
        else:
            want = mean([here[j] for j in range(n)
                         if not nan(b[j]) and b[j] == b[i]
                         and not nan(here[j]) and (not marks or good[j])])
        same(ctx, f"batch molinity {i}", df["titrant_molinity"].iloc[i], want)
        ctx.true(f"row {i}", df["file_name"].iloc[i] == names[i])
    ctx.true("returned", len(out) == n)


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=200 if q else 1800)
    NAN = math.nan
    R = ["ref"]
    out = []
    # every partition of three references into two batches and none
    for b0 in ("A", "B", NAN):
        out.append(H(f"marks_{b0}", run, "3 references, batches A, B or "
                     f"missing (first: {b0}), every set of marks",
                     dict(n=3, rows=[([b0], [True, False], R)] + [
                         (["A", "B", NAN], [True, False], R)] * 2), **lim))
    out.append(H("unmarked", run, "3 rows, batches A, B or missing, no marks",
                 dict(n=3, marks=False, rows=[
                     (["A", "B", NAN], [True], ["ref"])] * 3), **lim))
    kinds = ["ref", "sample", "bad", "missing"]
    out.append(H("kinds", run, "3 rows in two batches, each a reference, a "
                 "sample, a bad file or a missing file; no marks",
                 dict(n=3, marks=False, rows=[
                     (["A"], [True], kinds), (["A", "B"], [True], kinds),
                     (["B"], [True], kinds)]), **lim))
    out.append(H("kinds_marked", run, "3 rows in two batches, kinds and marks",
                 dict(n=3, rows=[
                     (["A"], [True], kinds), (["A", "B"], [True], kinds),
                     (["B"], [True, False], ["ref", "sample"])]), **lim))
    out.append(H("no_batch", run, "3 rows without batch column, each a "
                 "reference or a sample",
                 dict(n=3, batch=False, marks=False, rows=[
                     ([0], [True], ["ref", "sample"])] * 3), **lim))
    out.append(H("numbers", run, "3 references, numeric batch labels or "
                 "missing, unsorted index",
                 dict(n=3, marks=False, index=[7, 3, 5], rows=[
                     ([2, 1.0, NAN], [True], R)] * 3), **lim))
    out.append(H("dataframe", run, "4 rows in two batches, plain DataFrame, "
                 "duplicate index, marks",
                 dict(n=4, cls="DataFrame", index=["x", "y", "x", "z"], rows=[
                     (["B"], [True, False], R), (["A"], [True], R),
                     (["A", "B"], [True, False], R),
                     (["B"], [True], ["sample"])]), **lim))
    out.append(H("repeated", run, "3 rows, calibrated twice",
                 dict(n=3, again=True, rows=[
                     (["A"], [True, False], R), (["A", "B"], [True, False], R),
                     (["B", NAN], [True], ["ref", "sample"])]), **lim))
    out.append(H("labels", run, "4 rows in two batches with labels that are "
                 "nearly the same, zero, empty or of different types",
                 dict(n=4, labels=[("A", "a"), ("A", "A "), ("1", 1),
                                   (0, "0"), (0, 1), ("", "A"), (1, 1.5),
                                   ("x1", "x01"), (10, 9), ("10", "9"),
                                   ((1, 2), (2, 1)), (-1, 1),
                                   (1000000001, 1000000002), (True, False)],
                      rows=[([0], [True], R), ([1], [True], R),
                            ([0], [True, False], R),
                            ([1], [True], ["ref", "sample"])]), **lim))
    many = [([["A", "B"][i % 5 == 3]], [i % 7 != 4] if i != 2
             else [True, False], ["ref"] if i not in (5, 9) else ["sample"])
            for i in range(24)]
    out.append(H("many", run, "24 rows in two batches",
                 dict(n=24, rows=many), **lim))
    out.append(H("many_unmarked", run, "24 rows in two batches, no marks",
                 dict(n=24, marks=False, rows=many[12:] + many[:12]), **lim))
    if not q:
        out.append(H("five", run, "5 references, batches A, B or missing, "
                     "marks", dict(n=5, rows=[
                         (["A", "B"], [True, False], R),
                         (["A", "B"], [True, False], R),
                         (["A", "B"], [True], R),
                         (["A", "B", NAN], [True, False], R),
                         (["A", "B", NAN], [True], R)]), **lim))
    return out
