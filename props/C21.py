"""VINDTA databases yield the right files, certified values and times."""

import datetime
import math
import os

import pandas as pd

import calkulate as calk

from props.C16 import nan, same
from props.common import num, scratch
from symx.engine import Harness

ASSUMPTIONS = [
    "numbers in the database are symbolic reals (distinctive literals parsed "
    "by the real readers); run types, bottle names, dates and which fields "
    "are empty are enumerated",
]
HEADER = ["run type", "bottle", "station", "cast", "niskin", "depth",
          "i.s. temperature", "salinity", "counts", "CT", "cert. CRM CT",
          "last CRM AT", "cert. CRM AT", "batch", "AT", "comment", "date",
          "time", "cell ID"]
NUMBERS = ("i.s. temperature", "salinity", "CT", "cert. CRM CT",
           "last CRM AT", "cert. CRM AT", "AT")


def row(ctx, i, **given):
    """one line of a database"""
    r = {"run type": "bottle", "bottle": f"B{i}", "station": 3 + i,
         "cast": i, "niskin": 12 - i, "depth": 100 * i, "counts": 1000 + i,
         "batch": 154, "comment": "none", "date": f"08/{13 + i:02d}/18",
         "time": f"11:{20 + i}", "cell ID": "C_Aug13-18_1008"}
    for k in NUMBERS:
        r[k] = ctx.real(f"{k} {i}", lo=0.1, hi=4000, nice=(1, 2500))
    r.update(given)
    return r


def write(ctx, rows, header=HEADER, trail="\t\t"):
    d = scratch(ctx)
    path = os.path.join(d, "vindta.dbs")
    with open(path, "w") as f:
        f.write("\t".join(header) + "\n")
        for r in rows:
            f.write("\t".join("" if r[k] is None else r[k] if
                              isinstance(r[k], str) else str(r[k]) if
                              isinstance(r[k], int) else num(ctx, r[k])
                              for k in header) + trail + "\n")
    return path


def text(x):
    return str(x)


def integer(x):
    return str(int(x))


def sample_name(r, form="{s}-{c}  {n}  ({d}){b}.dat"):
    for k, v in (("{s}", integer(r["station"])), ("{c}", integer(r["cast"])),
                 ("{n}", integer(r["niskin"])), ("{d}", integer(r["depth"])),
                 ("{b}", text(r["bottle"]))):
        form = form.replace(k, v)
    return form


def when(r):
    """analysis time and days since 1970, or None"""
    if r["date"] is None or r["time"] is None:
        return None
    m, d, y = (int(x) for x in r["date"].split("/"))
    t = [int(x) for x in r["time"].split(":")]
    return datetime.datetime(2000 + y, m, d, *t)


def compare(ctx, df, rows, header=HEADER, form=None, path=None):
    ctx.true("a Dataset", isinstance(df, calk.Dataset))
    ctx.true("every row", len(df) == len(rows))
    if len(df) != len(rows):
        return
    names = [{"run type": "run_type"}.get(k, k) for k in header]
    ctx.true("every column, in order",
             [c for c in df.columns if c in names] == names)
    for i, r in enumerate(rows):
        for k, c in zip(header, names):
            got = df[c].iloc[i]
            if r[k] is None:
                ctx.true(f"{k} of row {i} empty", nan(got))
            elif isinstance(r[k], str):
                ctx.true(f"{k} of row {i}", str(got) == r[k])
            else:
                ctx.eq(f"{k} of row {i}", got, r[k])
        kind = r["run type"]
        good = kind in ("bottle", "CRM")
        if kind == "bottle":
            want = sample_name(r, form) if form else sample_name(r)
        elif kind == "CRM":
            want = "CRM" + text(r["batch"]) + text(r["bottle"]) + ".dat"
        got = df["file_name"].iloc[i]
        if good:
            ctx.true(f"file name of row {i}", got == want)
        given = r.get("file_good", True)
        ctx.true(f"row {i} to be processed or not",
                 bool(df["file_good"].iloc[i]) == bool(good and given))
        cert = (df["alkalinity_certified"].iloc[i]
                if "alkalinity_certified" in df else math.nan)
        if kind == "CRM" and r["cert. CRM AT"] is not None:
            same(ctx, f"certified value of row {i}", cert, r["cert. CRM AT"])
        else:
            ctx.true(f"no certified value in row {i}", nan(cert))
        t = when(r)
        got = df["analysis_datetime"].iloc[i]
        day = df["analysis_datenum"].iloc[i]
        if t is None:
            ctx.true(f"no time in row {i}", nan(got) or pd.isnull(got))
            ctx.true(f"no date number in row {i}", nan(day))
        else:
            ctx.true(f"time of row {i}", pd.Timestamp(got) == t)
            ctx.eq(f"date number of row {i}", day,
                   (t - datetime.datetime(1970, 1, 1)).total_seconds()
                   / 86400, rtol=1e-12)
        if path:
            ctx.true(f"source of row {i}", df["dbs_fname"].iloc[i] == path)


KINDS = ["bottle", "CRM", "CRM2", "blank", "crm", "Bottle", None, "bottles"]


def kinds(ctx, n):
    """run types in every combination and order"""
    rows = []
    for i in range(n):
        k = ctx.choice(f"type {i}", KINDS)
        rows.append(row(ctx, i, **{"run type": k}))
    path = write(ctx, rows)
    compare(ctx, calk.read_dbs(path), rows, path=path)


def numbers(ctx, n, form):
    """any numbers, truncated to whole ones in the file names"""
    ctx.int_tags = True
    rows = []
    kw = {"filename_format": form} if form else {}
    for i in range(n):
        rows.append(row(ctx, i, **{
            k: ctx.real(f"{k} {i}", lo=0.25, hi=9000, nice=(1, 5000))
            for k in ("station", "cast", "niskin", "depth", "counts")}))
    path = write(ctx, rows)
    compare(ctx, calk.read_dbs(path, **kw), rows, form=form)


def names(ctx, n):
    """bottle names and batches, as text and as numbers, some missing"""
    rows = []
    style = ctx.choice("bottles", ["text", "number", "spaces", "small",
                                   "decimal"])
    batch = ctx.choice("batches", ["number", "text", "two", "small"])
    void = ctx.choice("missing", [(), ("batch",), ("bottle",),
                                  ("batch", "bottle", "station", "cast",
                                   "niskin", "depth")])
    where = ctx.choice("where", range(n))
    for i in range(n):
        b = {"text": f"WALCRN20_{i}", "number": 17 + 6 * i,
             "spaces": f"NUT SL{i} x", "small": 5 * i,
             "decimal": f"{i}.5"}[style]
        t = {"number": 154, "text": f"B{150 + i}", "two": 154 + i % 2,
             "small": 7}[batch]
        r = row(ctx, i, bottle=b, batch=t,
                **{"run type": ["CRM", "bottle"][i % 2]})
        if i == where:
            r["run type"] = "other"
            for k in void:
                r[k] = None
        rows.append(r)
    compare(ctx, calk.read_dbs(write(ctx, rows)), rows)


DATES = [("01/02/03", "00:00"), ("12/31/19", "23:59"), ("02/29/20", "12:30"),
         ("08/13/18", "11:02:45"), (None, "10:00"), ("07/04/21", None),
         (None, None), ("10/09/99", "09:08")]


def times(ctx, n):
    """dates and times, some missing, in every combination and order"""
    rows = []
    for i in range(n):
        d, t = ctx.choice(f"date {i}", DATES)
        rows.append(row(ctx, i, date=d, time=t))
    compare(ctx, calk.read_dbs(write(ctx, rows)), rows)


def settings(ctx, n):
    """analyte amount, file path, file_good column"""
    header = list(HEADER)
    rows = [row(ctx, i, **{"run type": ["bottle", "CRM", "x"][i % 3]})
            for i in range(n)]
    marks = ctx.choice("file_good", [None, (1, 1, 0, 1), (0, 0, 1, 1)])
    if marks:
        header.insert(3, "file_good")
        for r, m in zip(rows, marks):
            r["file_good"] = "True" if m else "False"
    kw = {}
    vol = ctx.choice("volume", ["default", "given", "given and mass", "mass"])
    if vol.startswith("given"):
        kw["analyte_volume"] = ctx.real("volume", lo=1, hi=500,
                                        nice=(50, 150))
    if vol.endswith("mass"):
        kw["analyte_mass"] = ctx.real("mass", lo=0.01, hi=1, nice=(0.05, 0.2))
    fp = ctx.choice("path", [None, "here", "/a/b c/"])
    if fp is not None:
        kw["file_path"] = fp
    path = write(ctx, rows, header, ctx.choice("trail", ["", "\t", "\t\t"]))
    df = calk.read_dbs(path, **kw)
    for r, m in zip(rows, marks or ()):
        r["file_good"] = bool(m)
    if marks:
        header.remove("file_good")
    compare(ctx, df, rows, header, path=path)
    for i in range(n):
        if "analyte_mass" in kw:
            ctx.eq(f"mass {i}", df["analyte_mass"].iloc[i],
                   kw["analyte_mass"])
            ctx.true("no volume", "analyte_volume" not in df)
        else:
            ctx.eq(f"volume {i}", df["analyte_volume"].iloc[i],
                   kw.get("analyte_volume", 100.0))
            ctx.true("no mass", "analyte_mass" not in df)
        if fp is None:
            ctx.true("no path", "file_path" not in df)
        else:
            ctx.true(f"path {i}", df["file_path"].iloc[i] == fp)


def tables(ctx, n):
    """metadata tables in other text formats come as Datasets, unchanged"""
    d = scratch(ctx)
    how = ctx.choice("format", ["csv", "table", "fwf"])
    cols = ["salinity", "titrant_molinity", "dic", "alkalinity_certified"]
    void = ctx.choice("empty", [None, (1, 2), (0, 0)])
    rows = []
    for i in range(n):
        r = {c: ctx.real(f"{c}{i}", lo=0.01, hi=5000, nice=(1, 2000))
             for c in cols}
        if void and void[0] == i:
            r[cols[void[1]]] = None
        rows.append(r)
    path = os.path.join(d, "t.txt")
    sep = {"csv": ",", "table": "\t", "fwf": "  "}[how]
    with open(path, "w") as f:
        for line in [["file_name"] + cols] + [
                [f"f{i}.dat"] + ["" if r[c] is None else num(ctx, r[c])
                                 for c in cols] for i, r in enumerate(rows)]:
            if how == "fwf":
                line = [x.ljust(24) for x in line]
            f.write(sep.join(line) + "\n")
    df = getattr(calk, "read_" + how)(path)
    ctx.true("a Dataset", isinstance(df, calk.Dataset))
    ctx.true("shape", df.shape == (n, 5))
    for i, r in enumerate(rows):
        ctx.true(f"file {i}", df["file_name"].iloc[i] == f"f{i}.dat")
        for c in cols:
            same(ctx, f"{c} of row {i}", df[c].iloc[i],
                 math.nan if r[c] is None else r[c])


def harnesses(tier):
    q = tier == "quick"
    H = Harness
    lim = dict(time_limit=240 if q else 1500)
    out = [H("kinds_2", kinds, "2 rows", dict(n=2), **lim),
           H("kinds_3", kinds, "3 rows", dict(n=3), **lim),
           H("names_3", names, "3 rows", dict(n=3), **lim),
           H("times_2", times, "2 rows", dict(n=2), **lim),
           H("times_3", times, "3 rows", dict(n=3), **lim),
           H("settings_4", settings, "4 rows", dict(n=4), **lim),
           H("tables_3", tables, "3 rows", dict(n=3), **lim)]
    for i, form in enumerate((None, "{b}_{s}_{n}.dat", "{d}/{c}-{s}{n} {b}",
                              "run.{c}.dat")):
        out.append(H(f"numbers_{i}", numbers, "4 rows, any numbers",
                     dict(n=4, form=form), **lim))
    if not q:
        out += [H("kinds_4", kinds, "4 rows", dict(n=4), max_paths=5000,
                  **lim),
                H("names_6", names, "6 rows", dict(n=6), **lim),
                H("times_4", times, "4 rows", dict(n=4), max_paths=5000,
                  **lim)]
    return out
