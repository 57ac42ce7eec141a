"""P21: reading a delimited file gives the table which was written."""
import csv
import io
import os
import tempfile
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import sut, util
from vp.core import Prop
from vp.sut import dp
from dataprofiler import settings as dp_settings  # noqa: E402
from dataprofiler.data_readers.csv_data import CSVData  # noqa: E402

PROP = Prop("P21", "a cell holds the delimiter, the quote character, a line break or nothing at all",
            ["delimiter, quote character and header row are given as options (P23 judges detection)",
             "no carriage returns or NUL inside cells; distinct, non-empty column names; no row longer than the header",
             "the documented rule that a lone trailing delimiter on every line is no delimiter is kept clear of"])

DELIMS = [",", ",", "\t", ";", "|", "@", ":", "^", "~", " "]
QUOTES = ['"', '"', '"', "'", "`", "$"]
PIECES = ["a", "b", "\u2028", "\x85", "\x0c", "Z", "é", "日", "0", "1.5", "-3", "nan", "NA", "None", "null", "#", "\\", "/", ".", "%", " "]
NAMES = ["id", "name", "a b", "É", "x.1", "9", "Total", "col-5", "Q", "nan"]


def cell(d, q):
    special = st.sampled_from([d, q, q + q, d + d, "\n", d + q, ",", '"', "'", "\t", "\n\n"])
    return st.lists(st.one_of(st.sampled_from(PIECES), st.sampled_from(PIECES), special), max_size=4).map("".join)


@st.composite
def table(draw, max_rows=9, newline=True):
    d = draw(st.sampled_from(DELIMS))
    q = draw(st.sampled_from(QUOTES))
    n = draw(st.integers(1, 4))
    c = cell(d, q)
    if not newline:
        c = c.map(lambda s: s.replace("\n", "n"))
    short = draw(st.integers(0, 5))
    header = draw(st.sampled_from([0, 0, 0, None, 1, 3]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    all_, end, last = draw(st.booleans()), draw(st.sampled_from(["\n", "\n", "\r\n"])), draw(st.booleans())
    rows = draw(st.lists(st.lists(c, min_size=n, max_size=n), min_size=1, max_size=max_rows))
    if header is None:
        if n == 1:
            rows = [[r[0] if r[0].strip() else "v"] for r in rows]
        if n == 2:
            rows[0][1] = "z"
    elif short == 0 and n > 2:  # a row which ends early
        i = draw(st.integers(0, len(rows) - 1))
        rows[i] = rows[i][: draw(st.integers(1, n - 1))]
        if not rows[i][-1].strip():
            rows[i][-1] = "k"
    return {"d": d, "q": q, "names": names, "rows": rows, "header": header, "all": all_, "end": end, "last": last}


def text(c):
    """the file, written by the csv module"""
    buf = io.StringIO()
    w = csv.writer(buf, delimiter=c["d"], quotechar=c["q"], lineterminator=c["end"],
                   quoting=csv.QUOTE_ALL if c["all"] else csv.QUOTE_MINIMAL)
    h = c["header"]
    if h is not None:
        for i in range(h):
            buf.write("preamble %d" % i + c["end"])
        w.writerow(c["names"])
    for r in c["rows"]:
        w.writerow(r)
    s = buf.getvalue()
    if not c["last"] and s.endswith(c["end"]) and not s.endswith(c["end"] * 2):
        s = s[:-len(c["end"])]
    return s


def expected(c):
    n = len(c["names"])
    rows = [list(r) + [np.nan] * (n - len(r)) for r in c["rows"]]
    return pd.DataFrame(rows, columns=c["names"] if c["header"] is not None else list(range(n)), dtype=object)


def compare(ctx, got, want, c, what=""):
    ctx.check(isinstance(got, pd.DataFrame) and list(got.columns) == list(want.columns), what + "columns",
              lambda: "%r, written %r in %r" % (list(got.columns), list(want.columns), text(c)))
    ctx.check(len(got) == len(want), what + "row count", lambda: "%d, written %d: %r from %r" % (
        len(got), len(want), got.values.tolist(), text(c)))
    for i, (a, b) in enumerate(zip(got.values.tolist(), want.values.tolist())):
        for j, (x, y) in enumerate(zip(a, b)):
            ok = (x != x or x == '') if y != y else (isinstance(x, str) and x == y)
            ctx.check(ok, what + "cell", lambda: "row %d column %d: %r, written %r in %r" % (i, j, x, y, text(c)))


def trivial(c):
    cells = [x for r in c["rows"] for x in r]
    return any(c["d"] in x or c["q"] in x or "\n" in x or not x for x in cells)


def options(c, **kw):
    return dict({"delimiter": c["d"], "quotechar": c["q"], "header": c["header"]}, **kw)


def source(c, kind, tmp, enc="utf-8"):
    s = text(c)
    if kind == "bytes":
        return io.BytesIO(s.encode(enc))
    if kind == "stringio":
        return io.StringIO(s.replace("\r\n", "\n"))
    path = os.path.join(tmp, "t.csv")
    with open(path, "wb") as f:
        f.write(s.encode(enc))
    return path


@PROP.sub("read", st.fixed_dictionaries({
    "t": table(), "src": st.sampled_from(["path", "path", "bytes", "stringio", "string"]),
    "enc": st.sampled_from(["utf-8", "utf-8", "utf-16", "utf-32"]), "cols": st.lists(st.integers(0, 3), max_size=3),
    "batch": st.integers(1, 5), "swell": util.SWELL}), quick=1800, thorough=15000)
def run_read(c, ctx):
    t = c["t"]
    t["rows"] = util.swell(t["rows"], c.get("swell"))
    if len(t["rows"]) > 500:
        c["batch"] *= 200
    want = expected(t)
    kw = {}
    if c["cols"] and t["header"] is not None:
        pick = sorted({i % len(t["names"]) for i in c["cols"]})
        kw["selected_columns"] = [t["names"][i] for i in reversed(pick)]
        want = want[[t["names"][i] for i in pick]]
        ctx.label("selected columns")
    with tempfile.TemporaryDirectory() as tmp:
        if c["src"] == "string":
            d = CSVData(data=text(t).replace("\r\n", "\n"), options=options(t, **kw))
        else:
            enc = c["enc"] if c["src"] in ("path", "bytes") else None
            if enc:
                kw["encoding"] = enc
            d = CSVData(source(t, c["src"], tmp, enc), options=options(t, **kw))
        compare(ctx, d.data, want, t)
        ctx.check(len(d) == len(want) and d.length == len(want), "length", lambda: "%d / %d" % (len(d), len(want)))
        parts = list(d.get_batch_generator(c["batch"]))
        ctx.check(all(len(p) == c["batch"] for p in parts[:-1]) and sum(map(len, parts)) == len(want)
                  and sorted(i for p in parts for i in p.index) == list(range(len(want))), "batches",
                  lambda: "%r" % [list(p.index) for p in parts])
    for k in ("src",):
        ctx.label(c[k])
    ctx.label("row ends early" if any(len(r) < len(t["names"]) for r in t["rows"]) else "full rows")
    ctx.nt(trivial(t))


@PROP.sub("sample", st.fixed_dictionaries({
    "t": table(max_rows=14), "src": st.sampled_from(["path", "bytes", "string"]), "k": st.integers(1, 16),
    "seed": st.integers(0, 50)}), quick=1200, thorough=10000)
def run_sample(c, ctx):
    """sample_nrows gives that many of the rows, each whole, none twice"""
    t = c["t"]
    for i, r in enumerate(t["rows"]):
        r[0] = "%d#%s" % (i, r[0])  # rows told apart
    want = expected(t)
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(2):
            sut.reset(c["seed"])
            if c["src"] == "string":
                d = CSVData(data=text(t).replace("\r\n", "\n"), options=options(t, sample_nrows=c["k"]))
            else:
                d = CSVData(source(t, c["src"], tmp), options=options(t, sample_nrows=c["k"], encoding="utf-8"))
            out.append(d.data)
    got = out[0]
    ctx.check(len(got) == min(c["k"], len(want)), "sample size", lambda: "%d of %d, asked %d: %r from %r" % (
        len(got), len(want), c["k"], got.values.tolist(), text(t)))
    ids = [int(str(x).split("#")[0]) for x in got.iloc[:, 0]]
    ctx.check(len(set(ids)) == len(ids), "row twice", lambda: repr(ids))
    compare(ctx, got, want.iloc[ids].reset_index(drop=True), t, "sampled ")
    ctx.check(out[0].equals(out[1]), "same seed", lambda: "%r / %r" % (out[0].values.tolist(), out[1].values.tolist()))
    ctx.nt(len(got) < len(want))


@PROP.sub("uniform", st.fixed_dictionaries({"n": st.integers(2, 9), "k": st.integers(1, 8)}), quick=16, thorough=60)
def run_uniform(c, ctx):
    """every row is as likely as every other to be sampled"""
    n, k, runs = c["n"], min(c["k"], c["n"] - 1), 300
    s = "v\n" + "".join("%d\n" % i for i in range(n))
    hits = Counter()
    for seed in range(runs):
        dp_settings._seed = seed
        hits.update(CSVData(data=s, options={"delimiter": ",", "quotechar": '"', "header": 0, "sample_nrows": k}).data["v"])
    p = k / n
    sd = (runs * p * (1 - p)) ** 0.5
    for i in range(n):
        ctx.check(abs(hits[str(i)] - runs * p) <= 6 * sd, "uniform", lambda: "row %d of %d sampled %d times in %d, k=%d" % (
            i, n, hits[str(i)], runs, k))
    ctx.nt(True)


@PROP.sub("records", st.fixed_dictionaries({"t": table(), "per": st.integers(1, 4), "set": st.booleans()}), quick=500,
          thorough=4000)
def run_records(c, ctx):
    """as records: the same rows as text, so many lines at a time; the format can be switched back"""
    t = c["t"]
    want = expected(t)
    with tempfile.TemporaryDirectory() as tmp:
        path = source(t, "path", tmp)
        d = CSVData(path, options=options(t, encoding="utf-8", record_samples_per_line=c["per"],
                                          **({} if c["set"] else {"data_format": "records"})))
        if c["set"]:
            d.data_format = "records"
        ctx.check(not d.is_structured and d.data_format == "records", "format", "")
        recs = d.data
        flat = "\n".join(recs)
        back = list(csv.reader(io.StringIO(flat), delimiter=t["d"], quotechar=t["q"]))
        lines = flat.split("\n")
        ctx.check(back and back[0] == [str(x) for x in want.columns], "record header", lambda: repr(recs))
        ctx.check([r for r in back[1:]] == [["" if x != x else x for x in r] for r in want.values.tolist()], "records",
                  lambda: "%r, table %r" % (recs, want.values.tolist()))
        per = min(len(lines), c["per"])
        ctx.check(all(r.count("\n") == per - 1 for r in recs[:-1]), "rows per record", lambda: repr(recs))
        d.data_format = "dataframe"
        ctx.check(d.is_structured, "structured", "")
        compare(ctx, d.data, want, t)
        ctx.nt(trivial(t))


@PROP.sub("reload", st.fixed_dictionaries({"a": table(), "b": table(), "loaded": st.booleans(), "where": st.sampled_from(
    ["file", "data", "same"])}), quick=500, thorough=4000)
def run_reload(c, ctx):
    """reload: the new file, read with the options given; without options, as before"""
    a, b = c["a"], c["b"]
    with tempfile.TemporaryDirectory() as tmp:
        pa = source(a, "path", tmp)
        d = CSVData(pa, options=options(a, encoding="utf-8"))
        if c["loaded"]:
            compare(ctx, d.data, expected(a), a)
        if c["where"] == "same":
            d.reload(options={"encoding": "utf-8"})
            compare(ctx, d.data, expected(a), a, "reloaded ")
        elif c["where"] == "data":
            s = text(b).replace("\r\n", "\n")
            d.reload(data=s, options=options(b))
            compare(ctx, d.data, expected(b), b, "reloaded ")
        else:
            pb = os.path.join(tmp, "b.csv")
            with open(pb, "w", encoding="utf-8", newline="") as f:
                f.write(text(b))
            o = options(b, encoding="utf-8")
            if CSVData.is_match(pb, dict(o)):
                d.reload(pb, options=o)
                compare(ctx, d.data, expected(b), b, "reloaded ")
                ctx.label("other file")
            else:
                try:
                    d.reload(pb, options=o)
                    ctx.fail("reload of a file that does not match", "accepted")
                except ValueError:
                    ctx.label("refused")
        ctx.nt(trivial(a) or trivial(b))


@PROP.sub("profile", st.fixed_dictionaries({"t": table(newline=False), "src": st.sampled_from(["path", "bytes"])}), quick=150,
          thorough=900)
def run_profile(c, ctx):
    """profiling the file gives the profile of the table"""
    t = c["t"]
    want = expected(t)
    if want.isna().values.any():
        want = want.where(want.notna(), None)
    with tempfile.TemporaryDirectory() as tmp:
        d = CSVData(source(t, c["src"], tmp), options=options(t, encoding="utf-8"))
        sut.reset(3)
        p = dp.Profiler(d, options=util.options())
        r = util.report(p, None)
        ctx.check(r["global_stats"]["file_type"] == "csv" and r["global_stats"]["encoding"] == "utf-8", "file type",
                  lambda: repr(r["global_stats"]))
    sut.reset(3)
    q = util.profile(d.data.copy())
    s = util.report(q, None)
    sut.reset(3)
    for x in (r, s):
        x["global_stats"].pop("file_type"), x["global_stats"].pop("encoding")
    ctx.check(r["global_stats"]["row_count"] == len(want) and r["global_stats"]["column_count"] == len(want.columns), "shape",
              lambda: repr(r["global_stats"]))
    for i, col in enumerate(r["data_stats"]):
        cells = [x for x in want.iloc[:, i]]
        blank = sum(1 for x in cells if x is None or x.strip() == "" or x.strip().lower() in ("nan", "none", "null", "na"))
        ctx.check(col["column_name"] == want.columns[i], "name", lambda: repr(col["column_name"]))
        ctx.check(col["statistics"]["sample_size"] == len(cells) and
                  col["statistics"]["null_count"] <= blank, "cells", lambda: "%r in %r" % (col["statistics"]["null_count"], cells))
    a, b = util.report(p, "serializable"), util.report(q, "serializable")
    for x in (a, b):
        x["global_stats"].pop("file_type"), x["global_stats"].pop("encoding")
        for col in x["data_stats"]:
            col.pop("samples")
    ctx.check(str(a) == str(b), "profile", lambda: "%r / %r" % (a, b))
    ctx.nt(trivial(t))
