"""P17: a saved profile is the same profile when loaded again, and goes on like the original."""
import copy
import json
import os
import re
import tempfile

import pandas as pd
from hypothesis import strategies as st

from vp import history, ref, sut, util
from vp.checks.p04 import snap
from vp.core import Prop
from vp.sut import dp
from dataprofiler.data_readers.csv_data import CSVData  # noqa: E402
from dataprofiler.data_readers.json_data import JSONData  # noqa: E402

PROP = Prop("P17", "a save and a load happened and the profile holds data",
            ["data labeler off; single process", "reports are compared without timing fields; after further updates "
             "also without 'samples', which are a random choice", "count-min sketches and HyperLogLog objects are "
             "not serializable to JSON (the encoder says so) and are left out of the JSON runs"])

OPTS = [
    {},
    {},
    {"row_statistics.unique_count.hashing_method": "hll"},
    {"correlation.is_enabled": True},
    {"null_replication_metrics.is_enabled": True},
    {"category.top_k_categories": 2},
    {"category.stop_condition_unique_value_ratio": 0.5, "category.max_sample_size_to_check_stop_condition": 3},
    {"*.histogram_and_quantiles.bin_count_or_method": "auto"},
    {"*.histogram_and_quantiles.bin_count_or_method": 7, "*.num_quantiles": 4},
    {"*.variance.is_enabled": False, "*.skewness.is_enabled": False, "*.kurtosis.is_enabled": False},
    {"*.median.is_enabled": False, "*.mode.is_enabled": False, "*.median_abs_deviation.is_enabled": False},
    {"structured_options.text.vocab.is_enabled": False, "int.min.is_enabled": False, "float.precision.is_enabled": False},
    {"*.null_values": {"": 0, "9": 0, "none": re.IGNORECASE}},
    {"*.column_null_values": {0: {"3": 0, "x": re.IGNORECASE}}},
    {"row_statistics.is_enabled": False},
    {"chi2_homogeneity.is_enabled": False, "order.is_enabled": False},
    {"*.bias_correction.is_enabled": False, "float.precision.sample_ratio": 1.0},
    {"int.is_enabled": False, "datetime.is_enabled": False},
    {"category.is_enabled": False, "chi2_homogeneity.is_enabled": False, "multiprocess.is_enabled": False},
]
CMS = len(OPTS)
OPTS.append({"category.cms": True, "category.cms_confidence": 0.95, "category.cms_relative_error": 0.01,
             "category.cms_max_num_heavy_hitters": 50})
NAMES = [["c0", "c1", "c2"], [0, 1, 2], [5, 0, 3], ["a", "a", "a"], ["0", "1", "x"], ["", "é", "a.b"], ["1", "2", "0"]]


def norm(s, samples):
    s = copy.deepcopy(s)
    for c in s["data_stats"]:
        if not samples:
            c.pop("samples")
    return s


POOLS = [["05:46:30.258509", "05:46:30.258510", "05:46:30.100000", "05:46:30.000001", "05:46:31.000000"],
         ["2013-03-06T15:43:30.123456Z", "2013-03-06T15:43:30.123457Z", "2013-03-06T15:43:30.100000Z", "2013-03-06T15:43:30", "2013-03-06"],
         ["0.1", "0.10000000000000002", "0.1000000001", "0.30000000000000004", "0.3"], ["123456789.25", "123456789.5", "123456788.75"],
         ["9007199254740991", "9007199254740990", "9007199254740992"], ["a", "a ", " a", "A", "é", "e\u0301"],
         ["1", "1.0", "01", "+1", "1e0"], ["x" * 255, "x" * 256, "y"], ["nan", "", "NaN", "None", "1", "2"]]


@st.composite
def near(draw, max_rows):
    """cells which differ in the last digit of what a profile keeps"""
    n = draw(st.integers(3, max_rows))
    return [draw(st.lists(st.sampled_from(draw(st.sampled_from(POOLS))), min_size=n, max_size=n)) for _ in range(draw(st.integers(1, 2)))]


@st.composite
def case(draw, max_rows=14):
    return {"opt": draw(st.integers(0, len(OPTS) - 1)),
            "names": draw(st.sampled_from([0, 0, 0] + list(range(len(NAMES))))),
            "method": draw(st.sampled_from(["pickle", "json", "json"])),
            "cuts": draw(st.lists(st.floats(0, 1, width=16), min_size=2, max_size=2)),
            "pre": draw(st.sampled_from(["none", "update", "merge", "report"])),
            "post": draw(st.lists(st.sampled_from(["update", "merge", "rmerge", "diff", "save", "report"]), min_size=1,
                                  max_size=3)),
            "how": draw(st.sampled_from(["plain", "plain", "explicit", "class"])),
            "mts": draw(st.sampled_from([None, None, None, 2])), "reset": draw(st.booleans()),
            "cols": draw(st.one_of(history.table(min_rows=3, max_rows=max_rows), history.table(min_rows=3, max_rows=max_rows),
                                   near(max_rows)))}


def cycle(p, method, how, tmp):
    path = os.path.join(tmp, "p.bin")
    p.save(path, save_method=method)
    if how == "explicit":
        return dp.Profiler.load(path, load_method=method)
    if how == "class":
        return type(p).load(path)
    return dp.Profiler.load(path)


@PROP.sub("roundtrip", case(), quick=420, thorough=12000)
def roundtrip(c, ctx):
    names = NAMES[c["names"]][:len(c["cols"])]
    opt = OPTS[c["opt"]]
    if c["method"] == "json" and c["opt"] in (2, CMS):
        opt = {}
    if "*.column_null_values" in opt and names != sorted(set(names), key=str):
        opt = {}
    df = util.frame(c["cols"], names)
    n = len(df)
    i, j = sorted(min(n - 1, max(1, int(x * n))) for x in c["cuts"])
    parts = [df.iloc[:i], df.iloc[i:j], df.iloc[j:]]
    if c["reset"]:
        parts = [x.reset_index(drop=True) for x in parts]
    kw = {} if c["mts"] is None else {"min_true_samples": c["mts"]}

    def mk(part=parts[0]):
        sut.reset()
        return util.profile(part.copy(), util.set_options(opt), **kw)

    p = mk()
    if c["pre"] == "update" and len(parts[1]):
        p.update_profile(parts[1].copy())
    elif c["pre"] == "merge" and len(parts[1]):
        p = p + mk(parts[1])
    elif c["pre"] == "report":
        p.report()
    ctx.label(c["method"])
    ctx.label("opt%d" % c["opt"])
    ctx.label("pre-" + c["pre"])
    with tempfile.TemporaryDirectory() as tmp:
        before = snap(p)
        q = cycle(p, c["method"], c["how"], tmp)
        ctx.nt()
        ctx.check(type(q) is type(p), "class", lambda: "%s loaded as %s" % (type(p), type(q)))
        after = snap(q)
        ctx.check(ref.same(after, before), "report:" + c["method"], lambda: "loaded %s profile differs at %s" % (
            c["method"], ref.first_diff(after, before)))
        ctx.check(ref.same(snap(p), before), "saving changed it", lambda: ref.first_diff(snap(p), before))
        sam = True
        for k in c["post"]:
            ctx.label("post-" + k)
            if k == "update":
                sut.reset()  # equal random choices on both sides
                p.update_profile(parts[2].copy())
                sut.reset()
                q.update_profile(parts[2].copy())
                sam = False
            elif k == "merge":
                p, q = p + mk(parts[2]), q + mk(parts[2])
                sam = False
            elif k == "rmerge":
                p, q = mk(parts[2]) + p, mk(parts[2]) + q
                sam = False
            elif k == "save":
                q = cycle(q, c["method"], "plain", tmp)
            elif k == "report":
                p.report(), q.report()
            else:
                o = mk(parts[2])
                a, b = util.strip_times(q.diff(o)), util.strip_times(p.diff(o))
                ctx.check(ref.same(dsort(a), dsort(b)), "diff:" + c["method"], lambda: "diff of the loaded profile: %s" % (
                    ref.first_diff(dsort(a), dsort(b))))
                continue
            a, b = norm(snap(q), sam), norm(snap(p), sam)
            ctx.check(ref.same(a, b), "after %s:%s" % (k, c["method"]), lambda: "after %s the loaded %s profile differs "
                      "at %s" % (k, c["method"], ref.first_diff(a, b)))


def dsort(x):
    """lists of set members come in any order"""
    if isinstance(x, dict):
        return {k: dsort(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [dsort(v) for v in x]
        if all(isinstance(v, str) for v in y):
            return sorted(y)
        return y
    return x


# ------------------------------------------------------------------ options and metadata survive
@PROP.sub("options", st.fixed_dictionaries({
    "cells": st.lists(st.sampled_from(["1", "2.5", "a", "", "2020-01-01"]), min_size=1, max_size=6),
    "opt": st.lists(st.integers(0, len(OPTS) - 1), min_size=1, max_size=3), "method": st.sampled_from(["pickle", "json"]),
    "source": st.sampled_from(["frame", "csv", "json"]), "spu": st.sampled_from([None, 3])}), quick=150, thorough=3000)
def options(c, ctx):
    """the settings a profile was made with, its counters and the description of its source come back"""
    settings = {}
    for i in c["opt"]:
        if c["method"] == "json" and i in (2, CMS):
            continue
        settings.update(OPTS[i])
    if settings.get("correlation.is_enabled") and "*.variance.is_enabled" in settings:
        del settings["correlation.is_enabled"]  # refused
    with tempfile.TemporaryDirectory() as tmp:
        df = pd.DataFrame({"x": pd.Series(c["cells"], dtype=object), "y": pd.Series(c["cells"][::-1], dtype=object)})
        if c["source"] == "frame":
            data = df
        elif c["source"] == "csv":
            df.to_csv(os.path.join(tmp, "a.csv"), index=False)
            data = CSVData(os.path.join(tmp, "a.csv"), options={"delimiter": ",", "quotechar": '"', "header": 0})
        else:
            with open(os.path.join(tmp, "a.json"), "w") as f:
                for r in df.to_dict("records"):
                    f.write(json.dumps(r) + "\n")
            data = JSONData(os.path.join(tmp, "a.json"))
        kw = {} if c["spu"] is None else {"samples_per_update": c["spu"]}
        p = util.profile(data, util.set_options(settings), **kw)
        q = cycle(p, c["method"], "plain", tmp)
        ctx.nt()
        ctx.label(c["method"])
        from vp.checks.p04 import _options_view
        a, b = plain(_options_view(p.options)), plain(_options_view(q.options))
        ctx.check(a == b, "options:" + c["method"], lambda: {k: (a.get(k), b.get(k)) for k in set(a) | set(b)
                                                             if a.get(k) != b.get(k)})
        for k in ("encoding", "file_type", "total_samples", "_samples_per_update", "_min_true_samples",
                  "row_has_null_count", "row_is_null_count"):
            ctx.check(getattr(p, k) == getattr(q, k), k, lambda: "%s %r became %r" % (k, getattr(p, k), getattr(q, k)))


def plain(d):
    return {k: v for k, v in d.items() if "data_labeler_object" not in k}
