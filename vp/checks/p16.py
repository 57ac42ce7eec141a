"""Report formats: the same facts in every output format, omit_keys removes exactly what it names."""
import datetime
import json
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, history, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P16", "a report with at least one column of values (formats), or a pattern that matches something (omit_keys)",
            ["column names without dots; omit patterns name string keys"])

NAMES = st.one_of(st.sampled_from(["a", "b", "x y", "statistics", "min", "A", "order", "é", "data_stats", "global_stats"]),
                  st.integers(0, 5))
ODD = {"@date": pd.Timestamp("2020-01-02"), "@day": datetime.date(2021, 5, 6), "@half": 0.5}


@st.composite
def tables(draw, odd=False, **kw):
    big = draw(st.integers(0, 3)) == 0
    small = {"np": draw(st.booleans()), "rep": draw(st.integers(2, 9)) if big else 1, "corr": draw(st.booleans())}
    cols = draw(history.table(min_rows=1, max_rows=16, **kw))
    names = draw(st.lists(st.one_of(NAMES, NAMES, NAMES, st.sampled_from(sorted(ODD))) if odd else NAMES, min_size=len(cols), max_size=len(cols)))
    return dict(small, cols=cols, names=names)


def build(t, opts=None):
    df = util.frame([c * t["rep"] for c in t["cols"]])
    df.columns = [np.int64(n) if t["np"] and isinstance(n, int) else ODD.get(n, n) for n in t["names"]]
    o = opts if opts is not None else util.options()
    if t["corr"] and not any(x in gens.NULL_SAFE for c in t["cols"] for x in c):
        o.set({"correlation.is_enabled": True})
    return util.profile(df, o)


def key(k):
    return k if isinstance(k, (str, int, float, bool, type(None))) else str(k)


# ------------------------------------------------------------------ what each format owes
def plain(v):
    """value as plain JSON data"""
    if isinstance(v, dict):
        return {json_key(k): plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (set, frozenset)):
        return [plain(x) for x in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (datetime.date, pd.Timestamp)):
        return str(v)
    return v


def json_key(k):
    if isinstance(k, np.generic):
        k = k.item()
    if isinstance(k, bool):
        return "true" if k else "false"
    return "null" if k is None else k if isinstance(k, str) else str(k)


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(sorted(a)) == list(sorted(b)) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def check_pretty(ctx, got, raw, path=""):
    ctx.check(isinstance(got, dict) and {str(k) for k in got} == {str(key(k)) for k in raw}, "pretty keys",
              lambda: "%s: %r vs %r" % (path, sorted(map(str, got)), sorted(map(str, raw))))
    by = {str(k): v for k, v in got.items()}
    for k, v in raw.items():
        g, p = by[str(key(k))], path + "." + str(k)
        if k == "profile_schema":
            ctx.check(eq(plain(g), plain(v)), "pretty schema", lambda: "%s: %r vs %r" % (p, g, v))
        elif isinstance(v, dict):
            check_pretty(ctx, g, v, p)
        elif isinstance(v, list) and v and all(isinstance(x, dict) for x in v):
            ctx.check(isinstance(g, list) and len(g) == len(v), "pretty list", p)
            for a, b in zip(g, v):
                check_pretty(ctx, a, b, p)
        elif isinstance(v, (list, set, np.ndarray)):
            seq = sorted(v) if isinstance(v, set) else list(v)
            if not seq:
                ctx.check(len(g) == 0 or g == "[]", "pretty empty list", lambda: "%s: %r" % (p, g))
                continue
            ctx.check(isinstance(g, str) and g[0] == "[" and g[-1] == "]", "pretty list", lambda: "%s: %r for %r" % (p, g, v))
            if all(isinstance(x, str) and "\\" not in x and "'" not in x and x.isascii() for x in seq):
                flat = g.replace("\n", "")
                if " ... " in flat and len(seq) > 5:
                    ctx.label("shortened")
                    ctx.check(flat.startswith("['" + seq[0] + "'") and flat.endswith("'" + seq[-1] + "']"),
                              "pretty list ends", lambda: "%s: %r for %r" % (p, g, seq))
                else:
                    ctx.check([x.strip()[1:-1] for x in flat[1:-1].split("', ")] and all(("'" + x + "'") in flat for x in seq),
                              "pretty list items", lambda: "%s: %r for %r" % (p, g, seq))
        elif isinstance(v, float):
            ctx.check(ref.same(g, round(v, 4)), "pretty rounding", lambda: "%s: %r for %r" % (p, g, v))
        else:
            ctx.check(g == v or (g != g and v != v), "pretty value", lambda: "%s: %r for %r" % (p, g, v))


def drop_times(rep):
    """timings, also those whose key was flattened"""
    def f(d):
        return {k: ([f(c) if isinstance(c, dict) else c for c in v] if isinstance(v, list) else v)
                for k, v in d.items() if "_times" not in str(k)}
    return f(util.strip_times(rep))


def flatten(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            for kk, vv in flatten(v).items():
                out[str(key(k)).replace(" ", "_") + "_" + str(kk)] = vv
        else:
            out[key(k)] = v
    return out


COMPACT = ["times", "avg_predictions", "data_label_representation", "null_types_index", "histogram"]


def check_formats(ctx, get, lists=True):
    raw = get(None)
    ser = get("serializable")
    try:
        text = json.dumps(ser)
    except TypeError as e:
        ctx.fail("serializable report is JSON serializable", "%s: %r" % (e, ser))
    ctx.check(eq(json.loads(text), plain(raw)), "serializable report states the same",
              lambda: "%r\nvs\n%r" % (json.loads(text), plain(raw)))
    pretty = get("pretty")
    check_pretty(ctx, pretty, raw)
    compact = get("compact")
    want = json.loads(json.dumps(plain(pretty)))
    stats = []
    if isinstance(want.get("data_stats"), list):
        stats = [c.get("statistics") for c in want["data_stats"] if c]
    elif isinstance(want.get("data_stats"), dict):
        pass  # unstructured: 'statistics' is one level up
    for s in stats:
        for k in COMPACT:
            if isinstance(s, dict):
                s.pop(k, None)
    if stats:
        ctx.check(eq(json.loads(json.dumps(plain(compact))), want), "compact is pretty without the details",
                  lambda: "%r\nvs\n%r" % (compact, want))
    flat = get("flat")
    # columns are flattened one by one, then the whole
    exp = dict(raw)
    if isinstance(raw.get("data_stats"), list):
        exp["data_stats"] = [flatten(c) for c in raw["data_stats"]]
    schema = exp["global_stats"].get("profile_schema")
    want = flatten(exp)
    ctx.check(not any(isinstance(v, dict) for v in flat.values()), "flat report has no nesting", lambda: repr(flat))
    ctx.check(eq(plain(flat), plain(want)), "flat report states the same", lambda: "%r\nvs\n%r" % (flat, want))
    again = get(None)
    ctx.check(eq(plain(again), plain(raw)), "asking again gives the same report", lambda: "%r\nvs\n%r" % (again, raw))
    for f in ("SERIALIZABLE", "Pretty"):
        ctx.check(eq(plain(get(f)), plain(get(f.lower()))), "format names are case insensitive", f)


@PROP.sub("formats", tables(odd=True), quick=350, thorough=8000)
def formats(case, ctx):
    prof = build(case)

    def get(fmt):
        return drop_times(prof.report(report_options={"output_format": fmt}))

    ctx.nt(any(x not in gens.NULL_SAFE for c in case["cols"] for x in c))
    check_formats(ctx, get)


# ------------------------------------------------------------------ diffs
@st.composite
def diff_cases(draw):
    a = draw(tables(odd=True))
    b = draw(tables())
    if draw(st.booleans()):
        k = min(len(a["cols"]), len(b["cols"]))
        for t in (a, b):
            t["cols"] = t["cols"][:k]
            t["names"] = t["names"][:k]
        b["names"] = list(a["names"])
        a["np"] = b["np"]
    a["corr"] = b["corr"] = False
    return {"a": a, "b": b}


@PROP.sub("diff", diff_cases(), quick=200, thorough=5000)
def diff(case, ctx):
    p, q = build(case["a"]), build(case["b"])

    def get(fmt):
        return util.strip_times(p.diff(q, options={"output_format": fmt}))

    raw = get(None)
    ctx.nt(bool(raw["data_stats"]))
    ser = get("serializable")
    try:
        text = json.dumps(ser)
    except TypeError as e:
        ctx.fail("serializable diff is JSON serializable", "%s: %r" % (e, ser))
    ctx.check(eq(json.loads(text), plain(raw)), "serializable diff states the same",
              lambda: "%r\nvs\n%r" % (json.loads(text), plain(raw)))
    pretty = get("pretty")
    get("compact")
    get("flat")
    ctx.check(eq(plain(pretty["global_stats"]["row_count"]), plain(raw["global_stats"]["row_count"])), "pretty diff", "")


# ------------------------------------------------------------------ omit_keys
@st.composite
def omit_cases(draw):
    t = draw(tables(max_cols=3))
    n = draw(st.integers(1, 3))
    return {"t": t, "picks": [[draw(st.integers(0, 400)), draw(st.lists(st.booleans(), min_size=4, max_size=4)),
                              draw(st.integers(1, 4))] for _ in range(n)],
            "fmt": draw(st.sampled_from([None, None, "serializable", "flat"]))}


def paths(rep):
    """every path of string keys, the column name standing for the list index"""
    out = []

    def walk(d, pre):
        for k, v in d.items():
            if not isinstance(k, str) or "." in k:
                continue
            p = pre + [k]
            out.append(p)
            if k == "profile_schema":
                continue
            if k == "data_stats" and isinstance(v, list):
                for c in v:
                    name = str(c["column_name"])
                    out.append(p + [name])
                    walk(c, p + [name])
            elif isinstance(v, dict):
                walk(v, p)

    walk(rep, [])
    return sorted(set(map(tuple, out)))


def match(pat, path):
    return len(pat) == len(path) and all(a in ("*", b) for a, b in zip(pat, path))


def omit(d, pats, pre=()):
    out = {}
    for k, v in d.items():
        p = pre + (k if isinstance(k, str) else "\0%r" % (k,),)
        if any(match(q, p) for q in pats):
            continue
        if k == "profile_schema":
            out[k] = v
        elif k == "data_stats" and isinstance(v, list):
            cols = []
            for c in v:
                pc = p + (str(c["column_name"]),)
                cols.append(None if any(match(q, pc) for q in pats) else omit(c, pats, pc))
            out[k] = cols
        elif isinstance(v, dict):
            out[k] = omit(v, pats, p)
        else:
            out[k] = v
    return out


@PROP.sub("omit", omit_cases(), quick=350, thorough=8000)
def omit_(case, ctx):
    prof = build(case["t"])
    raw = util.strip_times(prof.report(report_options={"output_format": None}))
    allp = paths(raw)
    pats = []
    for i, stars, depth in case["picks"]:
        p = list(allp[i % len(allp)])[:depth] if stars[3] else list(allp[i % len(allp)])
        p = ["*" if s and j < 4 and not (s and j == len(p) - 1 and i % 3) else c
             for j, (c, s) in enumerate(zip(p, stars[:3] + [False] * 10))]
        pats.append(tuple(p))
    keys = [".".join(p) for p in pats]
    given = list(keys)
    rep = prof.report(report_options={"output_format": case["fmt"], "omit_keys": given})
    ctx.check(given == keys, "the caller's list is left alone", lambda: "%r -> %r" % (keys, given))
    got = drop_times(rep)
    want = omit(raw, pats)
    ctx.nt(not eq(plain(want), plain(raw)))
    ctx.label("star" if any("*" in p for p in pats) else "plain")
    if case["fmt"] == "serializable":
        got, want = json.loads(json.dumps(got)), plain(want)
    elif case["fmt"] == "flat":
        if isinstance(want.get("data_stats"), list):
            want["data_stats"] = [c and flatten(c) for c in want["data_stats"]]
        want = flatten(want)
    ctx.check(eq(plain(got), plain(want)), "omit_keys removes exactly the named keys",
              lambda: "omit %r: %s" % (keys, first_diff(plain(got), plain(want))))


def first_diff(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s.%s missing" % (p, k)
            if k not in b:
                return "%s.%s should be omitted" % (p, k)
            d = first_diff(a[k], b[k], "%s.%s" % (p, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s[%d]" % (p, i))
            if d:
                return d
        return None
    return None if eq(a, b) else "%s: %r, expected %r" % (p, a, b)
