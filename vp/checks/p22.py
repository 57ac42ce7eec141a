"""P22: JSON, AVRO, Parquet and text files are read as what was written."""
import io
import json
import os
import tempfile

import fastavro
import pandas as pd
import pyarrow as pa
import pyarrow.parquet as pq
from hypothesis import strategies as st

from vp import sut, util
from vp.core import Prop
from vp.sut import dp
from dataprofiler.data_readers.avro_data import AVROData  # noqa: E402
from dataprofiler.data_readers.json_data import JSONData  # noqa: E402
from dataprofiler.data_readers.parquet_data import ParquetData  # noqa: E402
from dataprofiler.data_readers.text_data import TextData  # noqa: E402

PROP = Prop("P22", "at least two rows (text: two lines) with values of more than one kind",
            ["cells are text: numbers compare by value (a column with gaps is read as floating point), missing and null as "
             "'nan' or 'None'", "integers up to 2^53; keys without the separator; a key is always nested or never",
             "JSON lines which are no JSON are ignored, as documented"])

KEYS = ["a", "b", "id", "É", "x y", "k1", "Z"]
TEXT = st.one_of(st.sampled_from(["", " ", "x", " y ", "nan", "None", "1", "01", "1.0", "true", "é", "日本", "a,b", '"q"', "l1\nl2",
                                  "\u2028", "\\", "😀", "{}", "[1]", ":"]), st.text("ab \n\"'é", max_size=6))
INT = st.one_of(st.integers(-9, 9), st.integers(-2 ** 53, 2 ** 53))
FLT = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1.0, -2.5, 1e300, 5e-324, 1e16]))
KIND = {"str": TEXT, "int": INT, "float": FLT, "bool": st.booleans(), "mixed": st.one_of(TEXT, INT, st.booleans())}


@st.composite
def records(draw, lo=1, hi=6, gaps=True, kinds=("str", "int", "float", "bool", "mixed"), nest=True):
    """a schema (flat and nested keys) and rows for it"""
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
    schema = {}
    for k in keys:
        if nest and draw(st.integers(0, 4)) == 0:
            sub = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True))
            schema[k] = {s: draw(st.sampled_from(kinds)) for s in sub}
        else:
            schema[k] = draw(st.sampled_from(kinds))
    rows = []
    for i in range(draw(st.integers(lo, hi))):
        rows.append(make_row(draw, schema, gaps and i > 0))
    return {"schema": schema, "rows": rows}


def make_row(draw, schema, gaps):
    row = {}
    for k, kind in schema.items():
        how = draw(st.integers(0, 9)) if gaps else 9
        if isinstance(kind, dict):
            if how != 0:
                row[k] = make_row(draw, kind, False)
        elif how == 0:
            continue
        elif how == 1:
            row[k] = None
        else:
            row[k] = draw(KIND[kind])
    if not row:
        k = next(iter(schema))
        row[k] = make_row(draw, schema[k], False) if isinstance(schema[k], dict) else draw(KIND[schema[k]])
    return row


def flat(row, sep="."):
    out = {}
    for k, v in row.items():
        if isinstance(v, dict):
            for s, x in flat(v, sep).items():
                out[k + sep + s] = x
        else:
            out[k] = v
    return out


MISSING = object()


def cell_ok(got, want):
    if want is MISSING or want is None:
        return got in ("nan", "None")
    if isinstance(want, bool):
        return got == str(want)
    if isinstance(want, (int, float)):
        try:
            return float(got) == want
        except ValueError:
            return False
    return got == want


def compare(ctx, df, rows, what="", columns=None):
    ctx.check(isinstance(df, pd.DataFrame), what + "type", lambda: repr(type(df)))
    names = columns or list(dict.fromkeys(k for r in rows for k in r))
    ctx.check(len(df.columns) == len(names) and set(df.columns) == set(names), what + "columns",
              lambda: "%r, written %r" % (list(df.columns), names))
    ctx.check(len(df) == len(rows), what + "row count", lambda: "%d, written %d: %r" % (len(df), len(rows), rows))
    for name in names:
        for i, (got, r) in enumerate(zip(df[name], rows)):
            want = r.get(name, MISSING)
            ctx.check(isinstance(got, str) and cell_ok(got, want), what + "cell",
                      lambda: "row %d, %r: %r, written %r" % (i, name, got, "nothing" if want is MISSING else want))


def nest(cell):
    """The row with the keys a.b as {a: {b: ...}}, unless a is a key itself."""
    out = {}
    for k, v in cell.items():
        parts = str(k).split(".")
        if any(".".join(parts[:i]) in cell for i in range(1, len(parts))) or "" in parts:
            return None
        d = out
        for part in parts[:-1]:
            d = d.setdefault(part, {})
        d[parts[-1]] = v
    return out


def judge_formats(ctx, make, rows, nested=True):
    """records and json hold the cells of the data frame"""
    df = make("dataframe").data
    cells = [{k: v for k, v in zip(df.columns, r)} for r in df.values.tolist()]
    d = make("records")
    recs = "\n".join(d.data).split("\n")
    ctx.check(not d.is_structured, "structured", "")
    got = [flat(json.loads(x)) if nested else json.loads(x) for x in recs]
    ctx.check(got == cells, "records", lambda: "%r, data frame %r" % (got, cells))
    for x, cell in zip(recs if nested else [], cells):
        want = nest(cell)
        ctx.check(want is None or json.loads(x) == want, "nested records", lambda: "%s, expected %r" % (x, want))
    got = json.loads("".join(make("json").data))
    ctx.check(got == cells, "json", lambda: "%r, data frame %r" % (got, cells))


def is_rich(rows):
    return len(rows) > 1 and len({type(v) for r in rows for v in r.values()}) > 1


LAYOUT = ["array", "pretty", "lines", "lines", "blank", "broken", "spaces"]


def layout(rows, how, ascii_):
    d = lambda r, **kw: json.dumps(r, ensure_ascii=ascii_, **kw)  # noqa: E731
    if how == "array":
        return d(rows)
    if how == "pretty":
        return d(rows, indent=2)
    if how == "blank":
        return "\n\n".join(map(d, rows)) + "\n\n"
    if how == "broken":
        return "\n".join(d(r) + ("\n{oops" if i % 2 == 0 else "") for i, r in enumerate(rows))
    if how == "spaces":
        return "\n".join("  " + d(r) + " " for r in rows) + "\n"
    return "\n".join(map(d, rows)) + "\n"


def open_json(text, src, enc, tmp, options):
    if src == "string":
        return JSONData(data=text, options=options)
    if src == "stringio":
        return JSONData(io.StringIO(text), options=options)
    options = dict(options, encoding=enc)
    if src == "bytes":
        return JSONData(io.BytesIO(text.encode(enc)), options=options)
    path = os.path.join(tmp, "t.json")
    with open(path, "wb") as f:
        f.write(text.encode(enc))
    return JSONData(path, options=options)


@PROP.sub("json", st.fixed_dictionaries({
    "r": records(), "layout": st.sampled_from(LAYOUT), "ascii": st.booleans(),
    "src": st.sampled_from(["path", "bytes", "stringio", "string"]), "enc": st.sampled_from(["utf-8", "utf-8", "utf-16", "utf-32"]),
    "fmt": st.sampled_from(["flattened_dataframe", "dataframe"]), "pick": st.lists(st.integers(0, 5), max_size=2), "swell": util.SWELL}),
    quick=1200, thorough=10000)
def run_json(c, ctx):
    rows = util.swell(c["r"]["rows"], c.get("swell"))
    text = layout(rows, c["layout"], c["ascii"])
    want = [flat(r) for r in rows]
    names = list(dict.fromkeys(k for r in want for k in r))
    opts = {"data_format": c["fmt"]}
    if c["pick"] and all(k not in ("data", "payload") for k in names):
        names = [names[i] for i in sorted({i % len(names) for i in c["pick"]}, reverse=True)]
        opts["selected_keys"] = names
        ctx.label("selected keys")
    with tempfile.TemporaryDirectory() as tmp:
        d = open_json(text, c["src"], c["enc"], tmp, opts)
        df = d.data
        ctx.check(d.is_structured and len(d) == len(rows), "length", lambda: "%r" % len(d))
        compare(ctx, df, [{k: r[k] for k in names if k in r} for r in want], columns=names)
        if "selected_keys" in opts:
            ctx.check(list(df.columns) == names, "selected order", lambda: "%r / %r" % (list(df.columns), names))
        judge_formats(ctx, lambda f: open_json(text, c["src"], c["enc"], tmp, {"data_format": f}), want)
    ctx.label(c["layout"])
    ctx.label(c["src"])
    ctx.nt(is_rich(want))


@PROP.sub("payload", st.fixed_dictionaries({
    "r": records(), "meta": records(lo=1, hi=1), "key": st.sampled_from(["data", "payload", "rows"]), "two": st.booleans(),
    "first": st.booleans(), "sep": st.sampled_from([".", "/", "::"]), "pick": st.booleans()}), quick=700, thorough=6000)
def run_payload(c, ctx):
    """{payload: rows, ...metadata}: the rows are the data, what is beside them the metadata"""
    key, sep = c["key"], c["sep"]
    rows, meta = c["r"]["rows"], {"m_" + k: v for k, v in c["meta"]["rows"][0].items()}
    doc = dict({key: rows}, **meta) if c["first"] else dict(meta, **{key: rows})
    opts = {"key_separator": sep, "encoding": "utf-8"}
    if key == "rows":
        opts["payload_keys"] = "rows" if c["two"] else ["other", "rows"]
    flatrows = [flat(r) for r in rows]
    names = list(dict.fromkeys(k for r in flatrows for k in r))
    if c["pick"]:
        names = names[-1:]
        opts["selected_keys"] = list(names)
        ctx.label("selected keys")
    d = JSONData(io.BytesIO(json.dumps(doc).encode("utf-8")), options=opts)
    df = d.data
    compare(ctx, df, [{key + sep + k: v for k, v in r.items() if k in names} for r in flatrows],
            columns=[key + sep + k for k in names])
    fm = flat(meta, sep)
    m = d.metadata
    compare(ctx, m, [fm], "metadata ")
    both = d.data_and_metadata
    ctx.check(len(both) == max(len(df), len(m)) and set(both.columns) == set(df.columns) | set(m.columns), "data and metadata",
              lambda: repr(both))
    for name in df.columns:
        ctx.check(list(both[name])[:len(df)] == list(df[name]), "joined data", lambda: repr(both))
    ctx.nt(len(rows) > 1)


def avro_type(kind):
    return ["null", {"str": "string", "int": "long", "float": "double", "bool": "boolean"}[kind]]


def avro_schema(schema, name="row"):
    fields = []
    for i, (k, kind) in enumerate(schema.items()):
        t = ["null", avro_schema(kind, "%s_%d" % (name, i))] if isinstance(kind, dict) else avro_type(kind)
        fields.append({"name": k, "type": t, "default": None})
    return {"type": "record", "name": name, "fields": fields}


def ascii_keys(schema, row):
    ren = {"É": "E", "x y": "xy"}

    def walk(o):
        return {ren.get(k, k): walk(v) if isinstance(v, dict) else v for k, v in o.items()}
    return walk(schema), walk(row)


@PROP.sub("avro", st.fixed_dictionaries({
    "r": records(kinds=("str", "int", "float", "bool")), "codec": st.sampled_from(["null", "deflate"]), "buf": st.booleans(),
    "fmt": st.sampled_from([None, "dataframe", "flattened_dataframe"]), "swell": util.SWELL}), quick=500, thorough=4000)
def run_avro(c, ctx):
    schema = ascii_keys(c["r"]["schema"], {})[0]
    rows = [ascii_keys({}, r)[1] for r in util.swell(c["r"]["rows"], c.get("swell"))]
    buf = io.BytesIO()
    fastavro.writer(buf, fastavro.parse_schema(avro_schema(schema)), rows, codec=c["codec"])
    want = []
    for r in rows:
        f = flat(r)
        full = {}
        for k, kind in schema.items():
            if isinstance(kind, dict):
                if r.get(k) is None:
                    full[k] = None  # a null record
                else:
                    full.update({k + "." + s: f.get(k + "." + s) for s in kind})
            else:
                full[k] = f.get(k)
        want.append(full)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "t.avro")
        with open(path, "wb") as f:
            f.write(buf.getvalue())

        def make(fmt):
            return AVROData(io.BytesIO(buf.getvalue()) if c["buf"] else path, options={"data_format": fmt} if fmt else {})

        ctx.check(AVROData.is_match(path) and not ParquetData.is_match(path), "is_match", "")
        d = make(c["fmt"])
        compare(ctx, d.data, want)
        auto = dp.Data(path)
        ctx.check(auto.data_type == "avro" and auto.data.equals(d.data), "detected", lambda: auto.data_type)
        if not any(isinstance(v, dict) for v in schema.values()):
            judge_formats(ctx, make, want)
    ctx.nt(is_rich(want))


@st.composite
def typed(draw):
    n = draw(st.integers(1, 9))
    cols = {}
    for name in draw(st.lists(st.sampled_from(KEYS + ["a.b"]), min_size=1, max_size=4, unique=True)):
        kind = draw(st.sampled_from(["str", "int", "float", "bool"]))
        null = draw(st.booleans())
        cells = draw(st.lists(KIND[kind], min_size=n, max_size=n))
        cols[name] = [kind, [None if null and draw(st.integers(0, 3)) == 0 else x for x in cells]]
    return cols


@PROP.sub("parquet", st.fixed_dictionaries({
    "t": typed(), "group": st.integers(1, 4), "pick": st.lists(st.integers(0, 5), max_size=3), "k": st.one_of(
        st.none(), st.none(), st.integers(1, 10)), "buf": st.booleans(), "comp": st.sampled_from(["snappy", "gzip", "none"]),
    "dict": st.booleans(), "swell": util.SWELL}), quick=600, thorough=5000)
def run_parquet(c, ctx):
    t = {k: [kind, util.swell(v, c.get("swell"))] for k, (kind, v) in c["t"].items()}
    if c.get("swell"):
        c["group"] *= 150
    types = {"str": pa.string(), "int": pa.int64(), "float": pa.float64(), "bool": pa.bool_()}
    tab = pa.table({k: pa.array(v, types[kind]) for k, (kind, v) in t.items()})
    names = list(t)
    n = len(t[names[0]][1])
    opts = {}
    if c["pick"]:
        names = [names[i] for i in dict.fromkeys(i % len(names) for i in c["pick"])]
        opts["selected_columns"] = names
    if c["k"]:
        opts["sample_nrows"] = c["k"]
    rows = [{k: t[k][1][i] for k in names} for i in range(n)]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "t.parquet")
        pq.write_table(tab, path, row_group_size=c["group"], compression=c["comp"], use_dictionary=c["dict"])
        with open(path, "rb") as f:
            raw = f.read()

        def make(**kw):
            return ParquetData(io.BytesIO(raw) if c["buf"] else path, options=dict(opts, **kw))

        ctx.check(ParquetData.is_match(path) and not AVROData.is_match(path) and not JSONData.is_match(path), "is_match", "")
        sut.reset(5)
        d = make()
        df = d.data
        ctx.check(list(df.columns) == names, "column order", lambda: "%r / %r" % (list(df.columns), names))
        if c["k"] and c["k"] < n:
            ctx.check(len(df) == c["k"] == len(d), "sample size", lambda: "%d of %d" % (len(df), n))
            i = 0
            for got in df.values.tolist():  # the sampled rows, in file order
                while i < n and not all(cell_ok(g, rows[i][k]) for g, k in zip(got, names)):
                    i += 1
                ctx.check(i < n, "sampled row", lambda: "%r is no (later) row of %r" % (got, rows))
                i += 1
            ctx.label("sampled")
        else:
            compare(ctx, df, rows, columns=names)
            judge_formats(ctx, lambda f: make(data_format=f), rows, nested=False)
            if not opts:
                auto = dp.Data(path)
                ctx.check(auto.data_type == "parquet" and auto.data.equals(df), "detected", lambda: auto.data_type)
                p = dp.Profiler(d, options=util.options())
                r = util.report(p, None)
                ctx.check(r["global_stats"]["row_count"] == n and r["global_stats"]["file_type"] == "parquet", "profile",
                          lambda: repr(r["global_stats"]))
                for col in r["data_stats"]:
                    cells = list(df[col["column_name"]])
                    pos = sorted(i for ids in col["statistics"]["null_types_index"].values() for i in ids)
                    must = {i for i, x in enumerate(cells) if x.strip(" ") == "" or x in ("nan", "None")}
                    may = {i for i, x in enumerate(cells) if x.strip().lower() in ("", "nan", "none", "null")}
                    ctx.check(must <= set(pos) <= may and len(set(pos)) == len(pos), "null positions", lambda: "%r in %r" % (pos, cells))
                ctx.label("profiled")
        if -(-n // c["group"]) > 1:
            ctx.label("several row groups")
    ctx.nt(n > 1)


@PROP.sub("text", st.fixed_dictionaries({
    "s": st.lists(TEXT, min_size=1, max_size=8).map("\n".join), "per": st.one_of(st.none(), st.integers(1, 12)),
    "src": st.sampled_from(["path", "bytes", "stringio", "string"]), "enc": st.sampled_from(["utf-8", "utf-8", "utf-16", "utf-32"])}),
    quick=600, thorough=5000)
def run_text(c, ctx):
    s = c["s"] or "q"
    opts = {} if c["per"] is None else {"samples_per_line": c["per"]}
    with tempfile.TemporaryDirectory() as tmp:
        if c["src"] == "string":
            d = TextData(data=s, options=opts)
        elif c["src"] == "stringio":
            d = TextData(io.StringIO(s), options=opts)
        else:
            opts["encoding"] = c["enc"]
            path = os.path.join(tmp, "t.txt")
            with open(path, "wb") as f:
                f.write(s.encode(c["enc"]))
            d = TextData(path if c["src"] == "path" else io.BytesIO(s.encode(c["enc"])), options=opts)
        got = d.data
        ctx.check(isinstance(got, list) and "".join(got) == s, "text", lambda: "%r, written %r" % (got, s))
        if c["per"]:
            ctx.check(all(len(x) == c["per"] for x in got[:-1]) and 0 < len(got[-1]) <= c["per"], "pieces", lambda: repr(got))
        else:
            ctx.check(len(got) == 1, "one piece", lambda: repr(got))
        ctx.check(not d.is_structured and len(d) == len(got), "length", "")
    ctx.nt("\n" in s)
