"""Titration files are read completely and written to read back equal."""

import itertools
import os

import numpy as np

import calkulate as calk

from props.common import num, scratch
from symx.engine import Harness

ASSUMPTIONS = [
    "real arithmetic in place of IEEE-754; every number in a file is a "
    "symbolic real (written as a distinctive literal, parsed by the real "
    "reader and mapped back); signs, layouts and options are enumerated",
]


def cell(ctx, name, neg=False):
    """a positive symbolic number, its negative, or zero: (value, literal)"""
    if neg == "zero":
        return 0.0, "0.0"
    x = ctx.real(name, lo=0.002, hi=4000, nice=(0.01, 900))
    return (-x, "-" + num(ctx, x)) if neg else (x, num(ctx, x))


def grid(ctx, rows, cols, neg=(), tag="x"):
    """values and literals; neg: (row, column) with a minus sign; a third
    entry makes it a zero"""
    neg = {p[:2]: p[2:] and "zero" or True for p in neg}
    v, t = [], []
    for i in range(rows):
        line = [cell(ctx, f"{tag}{i}_{j}", neg.get((i, j), False))
                for j in range(cols)]
        v.append([a for a, _ in line])
        t.append([b for _, b in line])
    return v, t


def compare(ctx, dd, v, cols):
    ctx.true("three fields", dd._fields == (
        "titrant_amount", "measurement", "temperature"))
    for k, got, j in zip(dd._fields, dd, cols):
        ctx.true(f"every line, {k}", len(got) == len(v))
        for i in range(min(len(v), len(got))):
            ctx.eq(f"{k} of line {i}", got[i], v[i][j])


SIGNS = [(), ((0, 0, 0), (0, 1, 0), (2, 2, 0)), ((0, 0),), ((0, 1), (1, 1)), ((1, 2),), ((2, 1), (2, 3))]


def lengths(ctx, sizes):
    """files of several lengths, with and without a final line end"""
    d = scratch(ctx)
    n = ctx.choice("lines", sizes)
    v, t = grid(ctx, n, 3)
    path = os.path.join(d, "a.dat")
    end = ctx.choice("end", ["", "\n", "\n\n"])
    with open(path, "w", newline="") as f:
        f.write(ctx.choice("line end", ["\n", "\r\n"]).join(
            ["one", "two"] + ["\t".join(r) for r in t]) + end)
    compare(ctx, calk.read_dat(path), v, (0, 1, 2))


def text(ctx, rows, width):
    """plain text columns"""
    d = scratch(ctx)
    delim, how = ctx.choice("delimiter and type", [
        (None, None), (",", "genfromtxt"), (";", "vindta"), (" ", "other"),
        (None, "other")])
    kw = {} if how is None else {"file_type": how}
    perm = ctx.choice("columns", [None] + list(
        itertools.permutations(range(width), 3))[:: (1, 5, 11, 17)[width - 3]])
    cols = perm or (0, 1, 2)
    if perm:
        kind = int if sum(perm[:2]) % 2 else float
        for k, j in zip(("titrant_amount", "measurement", "temperature"),
                        perm):
            kw["col_" + k] = kind(j)
    if delim:
        kw["delimiter"] = delim
    skip = ctx.choice("header", [None, 0, 1, 3.0])
    if skip is not None:
        kw["skip_header"] = skip
    neg = ctx.choice("signs", SIGNS)
    v, t = grid(ctx, rows, width, neg)
    header = 2 if skip is None else int(skip)
    lines = [(delim or "\t").join(["1", "2.5", "3"]) if i % 2 else
             "some text" for i in range(header)]
    lines += [(delim or "\t").join(r) for r in t]
    path = os.path.join(d, "a.dat")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n" * (rows % 2))
    compare(ctx, calk.read_dat(path, **kw), v, cols)


BEFORE = ["$S PC/LIMS V1", "P 5.862.0024\tS 20014", "S -----\t", "\t",
          "CRM1\t\t85.9040\tg", "$S Mode 1\t07\tMET U\tV1.0", "1\t2.0\t3.0",
          "temperature \xb0C"]
AFTER = ["$E", "$S DETERM V1",
         "TA-80mL\tsaved\tCRM1\t2001\t2020-12-11 11:53:53\toriginal"]


def pclims(ctx, rows, width):
    """first contiguous block of lines with the right number of columns"""
    d = scratch(ctx)
    kw = {"file_type": "pclims"}
    kind = ctx.choice("option type", [int, float])
    if width != 6:
        kw["n_cols"] = kind(width)
    cols = (1, 2, 5)
    if width < 6 or ctx.flag("columns"):
        cols = ctx.choice("which", [(0, 1, 2), (2, 0, width - 1),
                                    (width - 1, width - 2, 0)])
        for k, j in zip(("titrant_amount", "measurement", "temperature"),
                        cols):
            kw["col_" + k] = kind(j)
    neg = ctx.choice("signs", SIGNS)
    v, t = grid(ctx, rows, width, [p for p in neg if p[1] < width])
    around = ctx.choice("around", ["both", "before", "after", "second block",
                                   "nothing"])
    lines = BEFORE[:] if around in ("both", "before", "second block") else []
    if width <= 3 and "1\t2.0\t3.0" in lines:
        lines.remove("1\t2.0\t3.0")
    lines += ["\t".join(r) for r in t]
    if around in ("both", "after", "second block"):
        lines += AFTER
    if around == "second block":
        lines += ["\t".join(["7.5"] * width)] * 2 + ["$E"]
    path = os.path.join(d, "PC_LIMS_Report.txt")
    with open(path, "w", encoding="latin-1") as f:
        f.write("\n".join(lines) + "\n")
    compare(ctx, calk.read_dat(path, **kw), v, cols)


GAPS = [["$E"], [""], ["summary"], ["1\t2.0"], ["\t"], ["Temperatur\t\xb0C"],
        ["$E", "$S next"], ["\t".join("abcdef")], ["1,2,3,4,5,6"],
        ["\t".join(["x"] + ["1.5"] * 5)]]


def blocks(ctx, sizes):
    """only the first block counts, whatever its size and what follows"""
    d = scratch(ctx)
    n = ctx.choice("lines", sizes)
    gap = ctx.choice("gap", GAPS)
    rest = ctx.choice("second block", [1, 2, 5])
    v, t = grid(ctx, n, 6)
    lines = (BEFORE if n % 2 else ["report"]) + ["\t".join(r) for r in t] + gap
    lines += ["\t".join(["9.5"] * 6)] * rest
    if rest == 5:
        lines += gap + ["\t".join(["7.5"] * 6)] * (n + 6)
    path = os.path.join(d, "PC_LIMS_Report.txt")
    with open(path, "w", encoding="latin-1") as f:
        f.write("\n".join(lines) + "\n")
    compare(ctx, calk.read_dat(path, file_type="pclims"), v, (1, 2, 5))


HEAD = ["Volumen [mL]", "Messwert", "dMW [pH]", "Zeit [s]",
        "Temperatur [\xb0C]", "Berechnet 1", "Berechnet 2", "Berechnet 3"]


def tiamo(ctx, rows):
    """German Tiamo file: the volumes follow on from the previous section"""
    d = scratch(ctx)
    order = ctx.choice("columns", [list(range(8)), [4, 0, 1, 2, 3, 5, 6, 7],
                                   [1, 4, 0, 2, 3, 7, 6, 5]])
    neg = ctx.choice("signs", [(), ((0, 2), (1, 2)), ((0, 1), (2, 4)),
                               ((0, 0, 0),), ((1, 1, 0), (0, 4, 0))])
    v, t = grid(ctx, rows, 8, neg)
    start, lit = cell(ctx, "start")
    before = ["x;y", "347.6;4.5;5.1;702.0;21.3", f"351.6;4.4;{lit};89.9;21.2",
              "", ""]
    kw = ctx.choice("encoding", [{}, {"encoding": "latin-1"}])
    lines = ["Header", "Messung;1"] + before + ["Gran.1"]
    lines.append(";".join(HEAD[j] for j in order))
    lines += [";".join(r[j] for j in order) for r in t]
    path = os.path.join(d, "CRM.old")
    with open(path, "w", encoding="latin-1") as f:
        f.write("\n".join(lines) + "\n")
    dd = calk.read_dat(path, file_type="tiamo_de", **kw)
    compare(ctx, dd, [[r[0] + start] + r[1:] for r in v], (0, 1, 4))


def printed(ctx, x, fmt):
    """the number a reader gets from the formatted text"""
    s = format(x, fmt)
    if not ctx.sym:
        return float(s)
    from symx.shims import TAGS

    return TAGS.map(float(s))


def writing(ctx, n):
    """write, then read back"""
    d = scratch(ctx)
    path = os.path.join(d, "out.dat")
    kw = {}
    fmts = dict(titrant_amount=".3f", measurement=".3f", temperature=".3f")
    other = ctx.choice("formats", [
        {}, dict(titrant_amount=".6f", measurement=".1f", temperature=".2f"),
        dict(measurement=".8f"), dict(temperature=".0f"),
        dict(titrant_amount=".9f")])
    for k, f in other.items():
        fmts[k] = kw[k + "_fmt"] = f
    lines = ctx.choice("lines", [{}, dict(line0="first line"),
                                 dict(line1="a\tb\tc")])
    kw.update(lines)
    old = ctx.choice("before", ["nothing", "a file", "overwrite"])
    if old != "nothing":
        with open(path, "w") as f:
            f.write("precious\n1\t2\t3\n")
    if old == "overwrite":
        kw["mode"] = "w"
    cols = {}
    for k, lo, hi, nice in (("titrant_amount", 0, 10, (0.1, 5)),
                            ("measurement", -2000, 2000, (-400, 700)),
                            ("temperature", -2, 60, (15, 30))):
        cols[k] = ctx.arr([ctx.real(f"{k}{i}", lo=lo, hi=hi, nice=nice)
                           for i in range(n)])
    kind = ctx.choice("given as", ["arrays", "lists"])
    args = [v if kind == "arrays" else list(v) for v in cols.values()]
    try:
        calk.write_dat(path, *args, **kw)
    except FileExistsError:
        ctx.true("refused only for an existing file", old == "a file")
        with open(path) as f:
            ctx.true("existing file kept",
                     f.read() == "precious\n1\t2\t3\n")
        return
    ctx.true("an existing file is not overwritten", old != "a file")
    with open(path) as f:
        head = [next(f).rstrip("\n") for _ in range(2)]
    ctx.true("two header lines", len(head) == 2)
    for j, k in enumerate(("line0", "line1")):
        if k in lines:
            ctx.true(f"header {k}", head[j] == lines[k])
    dd = calk.read_dat(path)
    for k in cols:
        got = getattr(dd, k)
        ctx.true(f"every line of {k}", len(got) == n)
        half = 0.5 * 10.0 ** -int(fmts[k][1:-1]) * (1 + 1e-6)
        for i in range(n):
            ctx.eq(f"{k} of line {i}", got[i], printed(ctx, cols[k][i],
                                                       fmts[k]))
            ctx.true(f"{k} of line {i} not too large",
                     got[i] - cols[k][i] <= half)
            ctx.true(f"{k} of line {i} not too small",
                     got[i] - cols[k][i] >= -half)


def missing(ctx, rows):
    """a reading that is missing: its line stays, with no number there"""
    d = scratch(ctx)
    path = os.path.join(d, "a.dat")
    i, j = ctx.choice("which", [(0, 0), (0, 2), (1, 0), (1, 1), (rows - 1, 1),
                                (rows - 1, 2)])
    v, t = grid(ctx, rows, 3)
    how = ctx.choice("how", ["tab", ",", "written"])
    if how == "written":
        cols = [ctx.arr([r[k] for r in v]) for k in range(3)]
        cols[j][i] = float("nan")
        calk.write_dat(path, *cols, titrant_amount_fmt=".9f",
                       measurement_fmt=".9f", temperature_fmt=".9f")
        dd = calk.read_dat(path)
    else:
        sep, kw = ("\t", {}) if how == "tab" else (",", {"delimiter": ","})
        t[i][j] = ctx.choice("cell", ["", "nan", "x"])
        with open(path, "w") as f:
            f.write("\n".join(["one", "two"] + [sep.join(r) for r in t])
                    + "\n")
        dd = calk.read_dat(path, **kw)
    for k, got in enumerate(dd):
        ctx.true(f"every line, {k}", len(got) == rows)
        for m in range(rows):
            if (m, k) == (i, j):
                ctx.true(f"column {k} of line {m} missing",
                         bool(got[m] != got[m]))
            else:
                x = v[m][k]
                ctx.eq(f"column {k} of line {m}", got[m],
                       printed(ctx, x, ".9f") if how == "written" else x)


def whole(ctx, n):
    """formats other than fixed point, in a chain of two copies"""
    d = scratch(ctx)
    fmt = ctx.choice("format", [".6e", ".10g", ".4f"])
    x = [ctx.arr([ctx.real(f"{k}{i}", lo=1, hi=900, nice=(1, 700))
                  for i in range(n)]) for k in "abc"]
    kw = {k + "_fmt": fmt for k in ("titrant_amount", "measurement",
                                    "temperature")}
    p, q = os.path.join(d, "1.dat"), os.path.join(d, "2.dat")
    calk.write_dat(p, *x, **kw)
    one = calk.read_dat(p)
    calk.write_dat(q, *one, **kw)
    two = calk.read_dat(q)
    for j in range(3):
        for i in range(n):
            ctx.eq(f"first copy {j} {i}", one[j][i], printed(ctx, x[j][i],
                                                             fmt))
            if not ctx.sym:
                ctx.eq(f"second copy {j} {i}", two[j][i], one[j][i])


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1500)
    out = []
    for r in ((3,) if q else (3, 6)):
        for w in (3, 4, 5) if q else (3, 4, 5, 6):
            out.append(H(f"text_{r}x{w}", text, f"{r} lines of {w} columns",
                         dict(rows=r, width=w), max_paths=9000, **lim))
        out.append(H(f"lengths_{r}", lengths, "files of several lengths",
                     dict(sizes=[2, 4, 5, 9, 17] if r == 3 else
                          [30, 60, 120]), **lim))
        for w in (3, 5, 6, 8):
            out.append(H(f"pclims_{r}x{w}", pclims, f"{r} lines of {w} "
                         "columns", dict(rows=r, width=w), **lim))
        out.append(H(f"pclims_blocks_{r}", blocks, "blocks of several sizes",
                     dict(sizes=[1, 2, 3, 4, 7, 12] if r == 3 else
                          [20, 40, 80]), **lim))
        out.append(H(f"tiamo_{r}", tiamo, f"{r} lines", dict(rows=r), **lim))
        for m in (2, r, 2 * r, 4 * r):
            out.append(H(f"write_{m}", writing, f"{m} lines", dict(n=m),
                         **lim))
        for m in (1, 2 * r, 8 * r):
            out.append(H(f"tiamo_{m}", tiamo, f"{m} lines", dict(rows=m),
                         **lim))
        out.append(H(f"missing_{r}", missing, f"{r} lines", dict(rows=r),
                     **lim))
        out.append(H(f"copies_{r}", whole, f"{r} lines", dict(n=r), **lim))
    return out
