"""P23: files are recognised by their content, from a path or a buffer, again and again."""
import csv
import io
import json
import os
import random
import tempfile
from collections import Counter

import fastavro
import pandas as pd
import pyarrow as pa
import pyarrow.parquet as pq
from hypothesis import strategies as st

from vp import sut, util
from vp.core import Prop
from vp.sut import dp
from vp.checks import p22
from dataprofiler.data_readers.avro_data import AVROData  # noqa: E402
from dataprofiler.data_readers.csv_data import CSVData  # noqa: E402
from dataprofiler.data_readers.json_data import JSONData  # noqa: E402
from dataprofiler.data_readers.parquet_data import ParquetData  # noqa: E402
from dataprofiler.data_readers.text_data import TextData  # noqa: E402

PROP = Prop("P23", "more than one column or key, and more than five rows or a misleading extension",
            ["delimited files: a header of distinct lower case words, at least five rows, a column of plain numbers, quotes only "
             "where they are needed; ; | @ : only with three columns, eight rows and no '-', '.' or repeated pattern in the cells: what the heuristics are documented to handle",
             "encodings with a byte order mark, ASCII, or UTF-8 with at least six characters outside ASCII",
             "prose of at most three lines which is no JSON"])

WORDS = ["apple", "bread", "corn", "delta", "egg", "fish", "grapes", "milk", "tofu", "rib", "oil", "plum", "sky", "chef", "tact"]
TWO = ["new york", "los angeles", "old town"]
WIDE = ["é日é", "żółć ły", "東京都市"]
NAMES = ["id", "name", "price", "city", "total", "status", "amount", "code", "zip"]
EXT = ["csv", "json", "txt", "parquet", "avro", "dat", "", "tsv"]
ENC = ["utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-32"]


@st.composite
def table(draw):
    d = draw(st.sampled_from([",", ",", "\t", "\t", ";", "|", "@", ":"]))
    plain = d in ",\t"
    wide = plain and draw(st.integers(0, 3)) == 0
    end, last, more = draw(st.sampled_from(["\n", "\n", "\r\n"])), draw(st.booleans()), draw(st.booleans())
    kinds = ["int", "word", "two"] + (["float", "date"] if plain else []) + (["wide"] if wide else [])
    n = draw(st.integers(2 if plain else 3, 5))
    ks = [draw(st.sampled_from(kinds)) for _ in range(n)]
    if not {"int", "float"} & set(ks):
        ks[draw(st.integers(0, n - 1))] = "int"
    # varied cells: the heuristics look at how characters spread over the lines, repeated cells are out of their domain
    rng = random.Random(draw(st.integers(0, 2 ** 32)))
    cells = {"int": lambda: str(rng.randint(0, 9999)), "float": lambda: "%.2f" % (rng.random() * 1000), "word": lambda: rng.choice(WORDS),
             "two": lambda: rng.choice(TWO), "wide": lambda: rng.choice(WIDE),
             "date": lambda: "20%02d-%02d-%02d" % (rng.randint(0, 23), rng.randint(1, 12), rng.randint(1, 28))}
    rows = [[cells[k]() for k in ks] for _ in range(draw(st.integers(5 if plain else 8, 16)))]
    num = [j for j, k in enumerate(ks) if k in ("int", "float")]
    if d in ",\t" and n > len(num[:1]) and more:
        i, j = draw(st.integers(0, len(rows) - 1)), draw(st.sampled_from([j for j in range(n) if j != num[0]]))
        rows[i][j] += d + "x"
    return {"d": d, "names": draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True)), "rows": rows,
            "end": end, "last": last}


def text(t):
    buf = io.StringIO()
    w = csv.writer(buf, delimiter=t["d"], lineterminator=t["end"])
    w.writerow(t["names"])
    w.writerows(t["rows"])
    s = buf.getvalue()
    return s if t["last"] else s[:-len(t["end"])]


def save(tmp, ext, raw):
    path = os.path.join(tmp, "f." + ext if ext else "f")
    with open(path, "wb") as f:
        f.write(raw)
    return path


def sources(tmp, raw, ext, order):
    buf = io.BytesIO(raw)
    path = save(tmp, ext, raw)
    both = {"p": path, "b": buf}
    return [(k, both[k]) for k in order]


OPTS = [None, {"data_format": "dataframe"}, {}]
ORDER = st.sampled_from(["pb", "bb", "bpb", "p", "b", "bbb"])


@PROP.sub("delimited", st.fixed_dictionaries({
    "t": table(), "ext": st.sampled_from(EXT), "enc": st.sampled_from(ENC), "order": ORDER, "s": st.booleans(), "o": st.sampled_from(OPTS[:2])}),
    quick=700, thorough=6000)
def run_delimited(c, ctx):
    t = c["t"]
    s = text(t)
    enc = c["enc"]
    if enc == "utf-8" and 0 < sum(ord(ch) > 127 for ch in s) < 6:
        enc = "utf-16"
    with tempfile.TemporaryDirectory() as tmp:
        many = sources(tmp, s.encode(enc), c["ext"], c["order"])
        if c["s"]:
            many.append(("s", io.StringIO(s.replace("\r\n", "\n"))))
        for how, src in many:
            opts = c["o"] and dict(c["o"])
            d = dp.Data(src) if opts is None else dp.Data(src, options=opts)
            ctx.check(opts == c["o"], "options changed", lambda: "%r became %r" % (c["o"], opts))
            ctx.check(d.data_type == "csv" and type(d) is CSVData, "type", lambda: "%s (%s %s) for %r" % (d.data_type, how, enc, s))
            ctx.check(d.delimiter == t["d"], "delimiter", lambda: "%r for %r" % (d.delimiter, s))
            df = d.data
            ctx.check(list(df.columns) == t["names"], "columns", lambda: "%r for %r (%s %s)" % (list(df.columns), s, how, enc))
            ctx.check(df.values.tolist() == t["rows"], "cells", lambda: "%r for %r (%s %s)" % (df.values.tolist(), s, how, enc))
            if how != "s":
                ctx.check(CSVData.is_match(src) and not JSONData.is_match(src) and not AVROData.is_match(src)
                          and not ParquetData.is_match(src), "is_match", lambda: repr(s))
        ctx.label(enc)
        ctx.label(repr(t["d"]))
    ctx.nt(len(t["rows"]) > 5 or c["ext"] not in ("csv", "tsv"))


@st.composite
def document(draw):
    kind = draw(st.sampled_from(["json", "lines", "pretty", "object", "avro", "parquet", "text"]))
    if kind == "text":
        lines = draw(st.lists(st.lists(st.sampled_from(WORDS + TWO + ["the", "cat,", "sat.", "on;"]), min_size=2, max_size=9)
                              .map(" ".join), min_size=1, max_size=3))
        return {"kind": kind, "lines": lines}
    keys = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    kinds = {k: draw(st.sampled_from(["int", "word", "float"])) for k in keys}
    gen = {"int": st.integers(-999, 999), "word": st.sampled_from(WORDS + TWO), "float": st.integers(-999, 999).map(lambda v: v / 8)}
    rows = [{k: draw(gen[v]) for k, v in kinds.items()} for _ in range(draw(st.integers(1, 9)))]
    return {"kind": kind, "kinds": kinds, "rows": rows}


def raw_of(doc, enc):
    kind = doc["kind"]
    if kind == "text":
        return "\n".join(doc["lines"]).encode(enc)
    rows = doc["rows"]
    if kind == "avro":
        t = {"int": "long", "word": "string", "float": "double"}
        buf = io.BytesIO()
        fastavro.writer(buf, {"type": "record", "name": "r", "fields": [{"name": k, "type": t[v]} for k, v in doc["kinds"].items()]}, rows)
        return buf.getvalue()
    if kind == "parquet":
        buf = io.BytesIO()
        pq.write_table(pa.table({k: [r[k] for r in rows] for k in doc["kinds"]}), buf)
        return buf.getvalue()
    s = {"json": lambda: json.dumps(rows), "pretty": lambda: json.dumps(rows, indent=1), "object": lambda: json.dumps({"data": rows}),
         "lines": lambda: "\n".join(map(json.dumps, rows)) + "\n"}[kind]()
    return s.encode(enc)


CLS = {"json": JSONData, "avro": AVROData, "parquet": ParquetData, "text": TextData, "csv": CSVData}
TYPE = {"json": "json", "lines": "json", "pretty": "json", "object": "json", "avro": "avro", "parquet": "parquet", "text": "text"}


@PROP.sub("kinds", st.fixed_dictionaries({
    "doc": document(), "ext": st.sampled_from(EXT), "enc": st.sampled_from(ENC), "order": ORDER, "force": st.booleans(), "o": st.booleans()}),
    quick=700, thorough=6000)
def run_kinds(c, ctx):
    doc = c["doc"]
    raw = raw_of(doc, c["enc"])
    want = TYPE[doc["kind"]]
    with tempfile.TemporaryDirectory() as tmp:
        for how, src in sources(tmp, raw, c["ext"], c["order"]):
            opts = {"data_format": {"text": "text", "json": "flattened_dataframe"}.get(want, "dataframe")}
            kw = {"options": opts} if c["o"] else {}
            d = dp.Data(src, data_type=want, **kw) if c["force"] else dp.Data(src, **kw)
            ctx.check(len(opts) == 1, "options changed", lambda: repr(opts))
            ctx.check(d.data_type == want and type(d) is CLS[want], "type", lambda: "%s for %r (%s)" % (d.data_type, raw[:300], how))
            got = d.data
            if want == "text":
                ctx.check("".join(got) == "\n".join(doc["lines"]), "text", lambda: repr(got))
            else:
                pre = "data." if doc["kind"] == "object" else ""
                p22.compare(ctx, got, [{pre + k: v for k, v in r.items()} for r in doc["rows"]])
            for name, cls in CLS.items():
                if name == want or (name in ("avro", "parquet", "json") and want != name):
                    m = [cls.is_match(src), cls.is_match(src)]
                    ctx.check(m == [name == want] * 2, "is_match", lambda: "%s says %r of %r" % (name, m, raw[:300]))
            wrong = [n for n in ("avro", "parquet", "json") if n != want]
            for n in wrong:
                try:
                    dp.Data(src, data_type=n)
                    ctx.fail("wrong type accepted", "%s read as %s" % (want, n))
                except ValueError:
                    pass
    ctx.label(want)
    ctx.nt(len(doc.get("kinds", "ab")) > 1 and (c["ext"] != want or len(doc.get("rows", [])) > 5))


SOUP = st.one_of(
    st.lists(st.sampled_from(["a", "b", ",", "\n", "\n", "\t", " ", '"', "'", "1", ";", "{", "}", "[", "]", ":", "\r\n"]), max_size=80).map("".join),
    st.lists(st.lists(st.sampled_from(["1", "a", "", '"', "2.5", " ", "x y"]), min_size=1, max_size=4).map(",".join), max_size=12).map("\n".join),
    st.lists(st.sampled_from(['{"a":1}', "[1,2]", "{", '"x"', "1", "null", "", "[]", "{}", '{"a":{"b":2}}']), max_size=6).map("\n".join),
    st.lists(st.lists(st.sampled_from(WORDS + ["the", "cat,", "sat."]), max_size=6).map(" ".join), max_size=9).map("\n".join))


def outcome(src, opts=None):
    sut.reset(3)
    try:
        d = dp.Data(src) if opts is None else dp.Data(src, options=opts)
        v = d.data
    except Exception as e:  # noqa: BLE001
        return ("error", type(e).__name__)
    if isinstance(v, pd.DataFrame):
        v = (list(map(str, v.columns)), [[str(x) for x in r] for r in v.values.tolist()])
    return (d.data_type, v, getattr(d, "delimiter", None), d.file_encoding if d.data_type in ("csv", "json", "text") else None)


@PROP.sub("sources", st.fixed_dictionaries({"s": SOUP, "e1": st.sampled_from(EXT), "e2": st.sampled_from(EXT), "enc": st.sampled_from(ENC)}),
          quick=900, thorough=8000)
def run_sources(c, ctx):
    """whatever the content: path and buffer, extensions, first and second reading agree"""
    raw = c["s"].encode(c["enc"])
    with tempfile.TemporaryDirectory() as tmp:
        a = outcome(save(tmp, c["e1"], raw))
        b = outcome(save(tmp, c["e2"], raw))
        ctx.check(a == b, "extension", lambda: "%s %r / %s %r" % (c["e1"], a, c["e2"], b))
    buf = io.BytesIO(raw)
    b = outcome(buf)
    ctx.check(a == b, "buffer", lambda: "path %r / buffer %r" % (a, b))
    if a[0] != "error":
        b = outcome(buf)
        ctx.check(a == b, "second reading", lambda: "first %r / second %r" % (a, b))
        ctx.check(buf.getvalue() == raw, "buffer changed", "")
    ctx.label(a[0])
    ctx.nt(a[0] != "error" and len(raw) > 10)


@PROP.sub("profile", st.fixed_dictionaries({"t": table(), "seed": st.integers(0, 9), "batch": st.integers(1, 6)}), quick=60, thorough=500)
def run_profile(c, ctx):
    """a detected file profiles as its table; batches are a partition of its rows"""
    t = c["t"]
    raw = text(t).encode("utf-16")
    with tempfile.TemporaryDirectory() as tmp:
        d = dp.Data(save(tmp, "x", raw))
        sut.reset(c["seed"])
        r = util.strip_times(util.report(dp.Profiler(d, options=util.options()), None))
        ctx.check(r["global_stats"]["file_type"] == "csv" and r["global_stats"]["encoding"] == "utf-16", "file facts",
                  lambda: repr(r["global_stats"]))
        ctx.check(r["global_stats"]["row_count"] == len(t["rows"]) and r["global_stats"]["column_count"] == len(t["names"]), "size",
                  lambda: repr(r["global_stats"]))
        sut.reset(c["seed"])
        q = util.strip_times(util.report(dp.Profiler(pd.DataFrame(t["rows"], columns=t["names"]), options=util.options()), None))
        for x in (r, q):
            x["global_stats"].pop("file_type"), x["global_stats"].pop("encoding")
        diff = ref_diff(r, q)
        ctx.check(diff is None, "profile", lambda: repr(diff))
        parts = list(d.get_batch_generator(c["batch"]))
        ctx.check(all(len(p) == c["batch"] for p in parts[:-1]), "batch size", lambda: repr(list(map(len, parts))))
        got = Counter(tuple(x) for p in parts for x in p.values.tolist())
        ctx.check(got == Counter(map(tuple, t["rows"])), "batches", lambda: repr(got))
    ctx.nt(len(t["rows"]) > 5)


def ref_diff(a, b):
    from vp import ref
    return ref.first_diff(a, b)


# -- remote files -----------------------------------------------------------------------------------------------
_SERVER = {}


def server():
    """a web server on the loopback interface, one per process, which serves what the case puts there"""
    if os.getpid() in _SERVER:
        return _SERVER[os.getpid()]
    import threading
    from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
    state = {"files": {}}

    class Handler(BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"

        def log_message(self, *a):
            pass

        def do_GET(self):  # noqa: N802
            found = state["files"].get(self.path)
            if found is None:
                self.send_response(404)
                self.send_header("Content-length", "0")
                self.end_headers()
                return
            raw, mode, step = found
            self.send_response(200)
            if mode == "length":
                self.send_header("Content-length", str(len(raw)))
            elif mode == "chunked":
                self.send_header("Transfer-Encoding", "chunked")
            else:
                self.send_header("Connection", "close")
                self.close_connection = True
            self.end_headers()
            for i in range(0, len(raw), step):
                part = raw[i:i + step]
                self.wfile.write(b"%x\r\n%s\r\n" % (len(part), part) if mode == "chunked" else part)
            if mode == "chunked":
                self.wfile.write(b"0\r\n\r\n")

    httpd = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    httpd.daemon_threads = True
    threading.Thread(target=httpd.serve_forever, daemon=True).start()
    state["url"] = "http://127.0.0.1:%d" % httpd.server_port
    _SERVER.clear()
    _SERVER[os.getpid()] = state
    return state


CRED = ["aws_access_key_id", "aws_secret_access_key", "aws_session_token", "region_name"]
ENVS = {"aws_access_key_id": "AWS_ACCESS_KEY_ID", "aws_secret_access_key": "AWS_SECRET_ACCESS_KEY",
        "aws_session_token": "AWS_SESSION_TOKEN", "region_name": "AWS_REGION"}


@PROP.sub("remote", st.fixed_dictionaries({
    "doc": document(), "enc": st.sampled_from(ENC), "via": st.sampled_from(["http", "s3", "http", "s3a"]), "pad": st.sampled_from([0, 0, 0, 9000]),
    "mode": st.sampled_from(["length", "chunked", "close"]), "step": st.sampled_from([1, 7, 8192, 100000, 1000]), "key": st.sampled_from(
        ["f.csv", "a/b/c", "x y.json", "d/f.txt", "a#b.csv", "a?b=1", "%41", "ü.dat"]), "given": st.lists(st.sampled_from(CRED), max_size=4, unique=True),
    "env": st.lists(st.sampled_from(CRED), max_size=4, unique=True), "n": st.integers(1, 2)}), quick=150, thorough=2000)
def run_remote(c, ctx):
    """a file behind a URL or in a bucket is what it is on disk"""
    from unittest import mock
    from urllib.parse import quote
    doc = dict(c["doc"])
    if c["pad"]:  # several pieces of the download
        if doc["kind"] == "text":
            doc["lines"] = doc["lines"] + [" ".join(["tofu"] * (c["pad"] // 5))]
        else:
            doc["rows"] = doc["rows"] * (c["pad"] // (20 * len(doc["rows"]) * len(doc["kinds"])) + 1)
    raw = raw_of(doc, c["enc"])
    with tempfile.TemporaryDirectory() as tmp:
        want = outcome(save(tmp, "x", raw))
    via = c["via"]
    opts = {}
    env = {"NO_PROXY": "*", "no_proxy": "*"}
    old = {k: os.environ.get(k) for k in list(ENVS.values()) + list(env)}
    calls = []
    try:
        for k in ENVS.values():
            os.environ.pop(k, None)
        os.environ.update(env)
        os.environ.update({ENVS[k]: "env-" + k for k in c["env"]})
        if via == "http":
            srv = server()
            path = "/" + quote(c["key"])
            srv["files"] = {path: (raw, c["mode"], max(c["step"], len(raw) // 200 + 1))}
            for _ in range(c["n"]):
                got = outcome(srv["url"] + path, opts)
                ctx.check(got == want, "url", lambda: "url %r / file %r" % (got, want))
            bad = outcome(srv["url"] + "/none" + path)
            ctx.check(bad[0] == "error", "missing url", lambda: repr(bad))
        else:
            class Client:
                def get_object(self, Bucket, Key):  # noqa: N803
                    calls.append((Bucket, Key))
                    return {"Body": io.BytesIO(raw)}

            def client(*a, **kw):
                calls.append(kw)
                return Client()
            if c["given"]:
                opts = {"storage_options": {k: "given-" + k for k in c["given"]}}
            before = json.dumps(opts)
            with mock.patch("boto3.client", client):
                for _ in range(c["n"]):  # the same options serve for the next file
                    del calls[:]
                    got = outcome("%s://bucket-1/%s" % (via, c["key"]), opts)
                    ctx.check(got == want, "object", lambda: "object %r / file %r" % (got, want))
                    ctx.check(calls[1:] == [("bucket-1", c["key"])], "key", lambda: "asked for %r, not for %r" % (calls, c["key"]))
                    for k in CRED:
                        exp = "given-" + k if k in c["given"] else "env-" + k if k in c["env"] else "us-east-1" if k == "region_name" else None
                        ctx.check(calls[0].get(k) == exp, "credentials", lambda: "%s: %r, wanted %r" % (k, calls[0].get(k), exp))
            ctx.check(json.dumps(opts) == before, "options changed", lambda: "%s became %r" % (before, opts))
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    ctx.label(via + (" " + c["mode"] if via == "http" else ""))
    ctx.label(want[0])
    ctx.nt(want[0] != "error" and len(raw) > 20)


LONG = st.fixed_dictionaries({
    "kind": st.sampled_from(["csv", "csv", "csv", "json", "lines", "lines", "avro", "parquet", "text"]), "d": st.sampled_from(",\t,\t|"),
    "ks": st.lists(st.sampled_from(["int", "word", "two", "float"]), min_size=2, max_size=4), "n": st.one_of(
        st.integers(60, 400), st.integers(900, 1100), st.integers(1500, 6000)), "wide": st.sampled_from([None, None, 0, 0.3, 0.9]),
    "enc": st.sampled_from(ENC), "ext": st.sampled_from(EXT), "seed": st.integers(0, 2 ** 32), "quoted": st.booleans()})


@PROP.sub("long", LONG, quick=45, thorough=600)
def run_long(c, ctx):
    """files of hundreds of kilobytes, some of which leave ASCII only after the part which detection looks at"""
    rng = random.Random(c["seed"])
    kind, enc, n = c["kind"], c["enc"], c["n"]
    ks = list(c["ks"]) + ["int"]
    if c["d"] == "|" and kind == "csv":
        ks = ["int" if k == "float" else k for k in ks]
    names = NAMES[:len(ks)]
    cells = {"int": lambda: rng.randint(0, 9999), "float": lambda: rng.randint(0, 99999) / 8, "word": lambda: rng.choice(WORDS),
             "two": lambda: rng.choice(TWO)}
    rows = [[cells[k]() for k in ks] for _ in range(n)]
    if c["wide"] is not None:
        words = [j for j, k in enumerate(ks) if k in ("word", "two")]
        for i in range(int(n * c["wide"]), n):
            for j in words:
                rows[i][j] = rng.choice(WIDE)
    if kind == "csv":
        rows = [[str(v) for v in r] for r in rows]
        if c["quoted"] and c["d"] in ",\t":
            rows[n // 2][0] += c["d"] + "x"
        s = text({"d": c["d"], "names": names, "rows": rows, "end": "\n", "last": True})
    elif kind == "text":
        s = " ".join(str(v) for r in rows for v in r)
    wide = kind in ("csv", "text") and sum(ord(ch) > 127 for ch in s)
    if enc == "utf-8" and wide and c["wide"] and wide < 6:
        enc = "utf-16"
    doc = {"kind": kind, "kinds": {k: {"two": "word"}.get(v, v) for k, v in zip(names, ks)}, "rows": [dict(zip(names, r)) for r in rows]}
    raw = s.encode(enc) if kind in ("csv", "text") else raw_of(doc, enc)
    want = TYPE.get(kind, "csv")
    with tempfile.TemporaryDirectory() as tmp:
        for how, src in sources(tmp, raw, c["ext"], "pb"):
            d = dp.Data(src)
            what = "%s of %d rows in %s, wide from %r, by %s" % (kind, n, enc, c["wide"], how)
            ctx.check(d.data_type == want, "type", lambda: "%s for %s: %r" % (d.data_type, what, raw[:200]))
            got = d.data
            if want == "csv":
                ctx.check(d.delimiter == c["d"] and list(got.columns) == names, "table", lambda: "%r %r, %s: %r" % (
                    d.delimiter, list(got.columns), what, raw[:200]))
                ctx.check(len(got) == n and len(d) == n, "rows", lambda: "%d rows, len %d, %s" % (len(got), len(d), what))
                ctx.check(got.values.tolist() == rows, "cells", lambda: "%s: %r" % (what, [
                    (i, a, b) for i, (a, b) in enumerate(zip(got.values.tolist(), rows)) if a != b][:2]))
            elif want == "text":
                ctx.check("".join(got) == s, "text", what)
            else:
                ctx.check(len(got) == n, "rows", lambda: "%d rows, %s" % (len(got), what))
                p22.compare(ctx, got, doc["rows"])
    ctx.label(kind)
    ctx.nt(len(raw) > 20000)
