"""P32: a profile depends on the cells, not on what holds them."""
import csv
import datetime
import decimal
import io
import json
import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, history, ref, sut, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P32", "at least two rows, and a column which is not text (dtypes) or a container which is no data frame (containers)",
            ["the report is compared without timing fields, file type and encoding", "missing cells of pandas' nullable and date columns "
             "(<NA>, NaT) are texts which are no null values by default, and are left out", "row labels are unique (P05 judges others)",
             "duplicate rows are not judged between a batch of typed cells and one of texts, or of mixed types",
             "text row labels are not used twice (their null rows are then not told apart, as the profiler warns)"])

STAMP = st.datetimes(datetime.datetime(1980, 1, 1), datetime.datetime(2060, 1, 1)).map(lambda d: str(d.replace(microsecond=0)))
INTS = st.one_of(st.integers(-5, 5), st.integers(-10**6, 10**6))
FLOATS = st.one_of(st.integers(-40, 40).map(lambda i: i / 4), st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 3))).map(lambda x: x + 0.0 if x else 0.0)
WORDS = st.sampled_from(["a", "b", "Ab", "x y", "7", "2.5", "null", "", "é"])
KINDS = {
    "int64": (INTS, None), "int32": (INTS, None), "int8": (st.integers(-5, 120), None), "uint16": (st.integers(0, 9), None), "float64": (FLOATS, "nan"),
    "bool": (st.booleans(), None), "object": (st.one_of(INTS, FLOATS, WORDS, st.booleans()), "None"), "numbers": (st.one_of(INTS, FLOATS), "None"),
    "category": (WORDS, "nan"), "category-int": (st.integers(0, 4), None), "category-float": (FLOATS, "nan"), "string": (WORDS, None), "sparse-int": (st.integers(0, 2), None),
    "sparse-float": (FLOATS, "nan"), "datetime": (STAMP, None), "date": (STAMP.map(lambda s: s[:10]), "None"), "decimal": (FLOATS.map(lambda x: "%.3f" % x), "None"),
    "Int64": (INTS, None), "Float64": (FLOATS, None), "boolean": (st.booleans(), None), "text": (WORDS, "None"),
}


def series(kind, cells):
    if kind in ("datetime",):
        return pd.to_datetime(pd.Series(cells, dtype=object))
    if kind == "date":
        return pd.Series([None if c is None else datetime.date.fromisoformat(c) for c in cells], dtype=object)
    if kind == "decimal":
        return pd.Series([None if c is None else decimal.Decimal(c) for c in cells], dtype=object)
    if kind in ("object", "numbers", "text"):
        return pd.Series(cells, dtype=object)
    if kind == "category":
        return pd.Series(cells, dtype=object).astype("category")
    if kind == "category-int":
        return pd.Series(cells, dtype="int64").astype("category")
    if kind == "category-float":
        return pd.Series(cells, dtype="float64").astype("category")
    if kind == "sparse-int":
        return pd.Series(pd.arrays.SparseArray(np.array(cells, dtype="int64")))
    if kind == "sparse-float":
        return pd.Series(pd.arrays.SparseArray(np.array([np.nan if c is None else c for c in cells], dtype="float64")))
    return pd.Series(cells, dtype=kind)


def text(kind, c):
    if c is None:
        return KINDS[kind][1]
    if kind in ("float64", "category-float", "sparse-float", "Float64"):
        return str(float(c))
    return str(c)


@st.composite
def typed(draw):
    k, nb = draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 2]))
    small = {"corr": draw(st.booleans()), "nullrep": draw(st.booleans()), "merge": draw(st.booleans()), "second": draw(st.booleans()),
             "kinds": draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=k, max_size=k)), "miss": draw(st.integers(0, 2)), "swell": draw(util.SWELL)}
    batches = []
    for _ in range(nb):
        n = draw(st.integers(2, 9))
        cols = []
        for kd in small["kinds"]:
            cell, null = KINDS[kd]
            if null is not None and small["miss"]:
                cell = st.one_of(cell, cell, cell, st.none())
            cols.append(draw(st.lists(cell, min_size=n, max_size=n)))
        batches.append(cols)
    return dict(small, batches=batches)


def clean(rep):
    rep["global_stats"].pop("file_type")
    rep["global_stats"].pop("encoding")
    return rep


def opts(c):
    return util.set_options({"correlation.is_enabled": c["corr"], "null_replication_metrics.is_enabled": c["nullrep"]})


@PROP.sub("dtypes", typed(), quick=400, thorough=9000)
def dtypes(c, ctx):
    """a table of typed columns is profiled as the table of the texts of its cells"""
    def frames(as_text):
        out = []
        for b, cols in enumerate(c["batches"]):
            cols = util.swell_cols(cols, None if b else c.get("swell"))
            plain = as_text or (b == 1 and c["second"])  # the second batch may come as text
            out.append(pd.DataFrame({"c%d" % i: pd.Series([text(kd, x) for x in cells], dtype=object) if plain else series(kd, cells)
                                     for i, (kd, cells) in enumerate(zip(c["kinds"], cols))}))
        return out

    reps = []
    for as_text in (False, True):
        sut.reset(5)
        fs = frames(as_text)
        before = [f.copy(deep=True) for f in fs]
        p = util.profile(fs[0], opts(c))
        for f in fs[1:]:
            if c["merge"]:
                p = p + util.profile(f, opts(c))
            else:
                p.update_profile(f)
        reps.append(clean(util.report(p)))
        for f, g in zip(fs, before):
            ctx.check(list(f.dtypes) == list(g.dtypes) and f.astype(object).map(str).equals(g.astype(object).map(str)), "data", "the frame was changed")
    for kd in c["kinds"]:
        ctx.label(kd)
    if (c["second"] and len(c["batches"]) > 1) or {"object", "numbers"} & set(c["kinds"]):
        for r in reps:  # rows of typed and of text cells are different rows, 0 and 0.0 the same
            for k in ("unique_row_ratio", "duplicate_row_count"):
                r["global_stats"].pop(k)
    d = ref.first_diff(reps[0], reps[1])
    ctx.check(d is None, "typed", lambda: "typed and text differ at %s" % (d,))
    ctx.nt(any(kd not in ("text", "string") for kd in c["kinds"]) and len(c["batches"][0][0]) > 1)


CELL = st.one_of(gens.small_int.map(str), gens.dec_cell, st.sampled_from(["a", "b", "x,y", "2020-01-02", "é", "7", 'q"t']))


@st.composite
def held(draw):
    how = draw(st.sampled_from(["rows", "tuples", "dicts", "series", "cells", "labels", "text labels", "csv", "json", "parquet", "json list", "csv path", "columns"]))
    k = 1 if how in ("series", "cells") else draw(st.integers(1, 4))
    again, nul = draw(st.booleans()), draw(st.booleans())
    n = draw(st.integers(2, 10))
    cell = st.one_of(CELL, CELL, CELL, st.sampled_from(["nan", "None", "null"])) if nul else CELL
    return {"how": how, "again": again, "cols": [draw(st.lists(cell, min_size=n, max_size=n)) for _ in range(k)]}


def hold(how, cols, tmp):
    """the same cells in another container; the names of the columns"""
    from dataprofiler.data_readers.csv_data import CSVData
    from dataprofiler.data_readers.json_data import JSONData
    from dataprofiler.data_readers.parquet_data import ParquetData

    names = ["c%d" % i for i in range(len(cols))]
    rows = [list(r) for r in zip(*cols)]
    df = util.frame(cols, names)
    if how == "rows":
        return rows, list(range(len(cols)))
    if how == "tuples":
        return [tuple(r) for r in rows], list(range(len(cols)))
    if how == "dicts":
        return [dict(zip(names, r)) for r in rows], names
    if how == "series":
        return pd.Series(cols[0], dtype=object, name="c0"), names
    if how == "cells":
        return list(cols[0]), [0]
    if how == "labels":
        df.index = [10 * ((i * 7) % 11) + 3 for i in range(len(df))]
        return df, names
    if how == "text labels":
        df.index = ["r%d" % ((i * 7) % 11) for i in range(len(df))]
        return df, names
    if how == "columns":
        df.columns = [float(i) + 0.5 for i in range(len(cols))]
        return df, list(df.columns)
    if how.startswith("csv"):
        out = io.StringIO(newline="")
        w = csv.writer(out, lineterminator="\n")
        w.writerow(names)
        w.writerows(rows)
        o = {"delimiter": ",", "quotechar": '"', "header": 0}
        if how == "csv":
            return CSVData(io.StringIO(out.getvalue()), options=o), names
        path = os.path.join(tmp, "t.csv")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(out.getvalue())
        return CSVData(path, options=dict(o, encoding="utf-8")), names
    if how.startswith("json"):
        path = os.path.join(tmp, "t.json")
        recs = [dict(zip(names, r)) for r in rows]
        with open(path, "w", encoding="utf-8") as f:
            f.write(json.dumps(recs) if how == "json list" else "".join(json.dumps(r) + "\n" for r in recs))
        return JSONData(path), names
    path = os.path.join(tmp, "t.parquet")
    df.to_parquet(path)
    return ParquetData(path), names


@PROP.sub("containers", held(), quick=400, thorough=9000)
def containers(c, ctx):
    """lists, series, frames with any labels and readers' data are profiled as the table of their cells"""
    cols, how = c["cols"], c["how"]
    with tempfile.TemporaryDirectory() as tmp:
        data, names = hold(how, cols, tmp)
        df = util.frame(cols, names)
        reps = []
        for d in (data, df):
            sut.reset(5)
            p = dp.Profiler(d, options=util.options(), profiler_type="structured")
            if c["again"] and how != "text labels":
                p.update_profile(d)
            reps.append(util.report(p))
    kind = reps[0]["global_stats"]["file_type"]
    want = {"csv": "csv", "csv path": "csv", "json": "json", "json list": "json", "parquet": "parquet"}.get(how)
    if want:
        ctx.check(kind == want, "file type", lambda: "%s read as %r" % (how, kind))
    a, b = clean(reps[0]), clean(reps[1])
    if "labels" in how:
        for r in (a, b):
            for col in r["data_stats"]:
                col["statistics"].pop("null_types_index")  # rows are named by their labels (P05)
    d = ref.first_diff(a, b)
    ctx.check(d is None, "container", lambda: "%s and table differ at %s" % (how, d))
    ctx.label(how)
    ctx.nt(how not in ("labels",) or len(cols) > 1)
