"""P29: profiles count the labels which the labeler gives."""
import os
import tempfile
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import sut, util
from vp.core import Prop
from vp.sut import dp
from vp.checks.p14 import eq, list_diff, num_diff
from dataprofiler.labelers import data_processing as proc  # noqa: E402
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler  # noqa: E402
from dataprofiler.labelers.regex_model import RegexModel  # noqa: E402

PROP = Prop("P29", "labelled cells (words) with at least two labels; several chunks, a merge or a sample for histories",
            ["the labeler is a pattern labeler whose labels can be computed from the text (see P25); cells have one most likely label",
             "separators are not labelled and texts end with one (the last word of other texts: known finding)"])


class ZeroRegexModel(RegexModel):
    """index 0 is reserved, as in the neural models"""

    requires_zero_mapping = True


CLASSES = {"NUM": "[0-9]", "LOW": "[a-z]", "UP": "[A-Z]", "SIGN": "[#%&]"}
GROUP = {"NUM": "0123456789", "LOW": "abcdefghijklmnopqrstuvwxyz", "UP": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "SIGN": "#%&", "UNKNOWN": "éß漢"}
MAPS = [
    (RegexModel, {"UNKNOWN": 0, "NUM": 1, "LOW": 2, "UP": 3, "SIGN": 4}),
    (RegexModel, {"LOW": 0, "UNKNOWN": 3, "NUM": 1, "UP": 2, "SIGN": 4}),
    (RegexModel, {"UNKNOWN": 1, "NUM": 2, "LOW": 5, "UP": 4, "SIGN": 7}),
    (ZeroRegexModel, {"PAD": 0, "UNKNOWN": 1, "NUM": 2, "LOW": 3, "UP": 4, "SIGN": 5}),
    (ZeroRegexModel, {"PAD": 0, "UNKNOWN": 4, "NUM": 2, "LOW": 1, "UP": 3, "SIGN": 5}),
    (ZeroRegexModel, {"PAD": 0, "UNKNOWN": 1, "NUM": 2, "LOW": 3, "UP": 6, "SIGN": 5}),
]


def model(k):
    cls, mapping = MAPS[k]
    return cls(label_mapping=dict(mapping), parameters={"regex_patterns": {n: [p] for n, p in CLASSES.items()}, "encapsulators": {"start": "", "end": ""},
                                                        "ignore_case": False, "default_label": "UNKNOWN"})


def cell_labeler(k):
    return BaseDataLabeler.load_with_components(proc.DirectPassPreprocessor(), model(k), proc.StructRegexPostProcessor(random_state=1))


def of(ch):
    for n in ("NUM", "LOW", "UP", "SIGN"):
        if ch in GROUP[n]:
            return n
    return "UNKNOWN"


def shares(cell):
    n = Counter(of(ch) for ch in cell)
    return {k: n[k] / len(cell) for k in GROUP}


def clear(cell):
    """without a tie for the most frequent label"""
    while True:
        top = Counter(of(ch) for ch in cell).most_common(2)
        if len(top) < 2 or top[0][1] > top[1][1]:
            return cell
        cell += GROUP[top[0][0]][0]


CELL = st.one_of(st.text("019abcABC#é", min_size=1, max_size=9), st.text("0123456789", min_size=1, max_size=5), st.text("abc", min_size=1, max_size=4),
                 st.sampled_from(["ABC", "12", "abc", "#", "a1#Aé", "aA1", "éé", "12.5", "x"])).map(clear)
COLUMN = st.lists(st.one_of(CELL, CELL, CELL, st.sampled_from([None, "", "nan"])), max_size=18)


def is_null(x):
    return x is None or x in ("", "nan")


def expected(cells, k):
    """the report of the labels of a column"""
    names = [n for n in MAPS[k][1] if n != "PAD"]
    cells = [x for x in cells if not is_null(x)]
    if not cells:
        return None
    total = {n: 0.0 for n in names}
    votes = Counter()
    for x in cells:
        s = shares(x)
        for n in names:
            total[n] += s[n]
        best = max(s, key=lambda n: s[n])
        if s[best] > 0.2:
            votes[best] += 1
    count = sum(votes.values())
    rep = {n: votes[n] / max(1, count) for n in names}
    return {"avg": {n: v / len(cells) for n, v in total.items()}, "rep": rep, "n": len(cells)}


def label_ok(label, rep):
    order = sorted(rep.values(), reverse=True)
    if order[0] < 0.35:
        return label == "could not determine"
    got = (label or "").split("|")
    if len(set(got)) != len(got) or any(n not in rep for n in got):
        return False
    want = [v for v in order[:3] if v - order[0] >= -0.20]
    return [rep[n] for n in got] == want


def judge(ctx, stats, cells, k, key):
    want = expected(cells, k)
    label, avg, rep = (stats.get(x) for x in ("data_label", "avg_predictions", "data_label_representation"))
    col = stats["statistics"]
    avg = col.get("avg_predictions")
    rep = col.get("data_label_representation")
    if want is None:
        ctx.check(label is None and avg is None and rep is None, key + ": column without cells", lambda: "%r %r %r" % (label, avg, rep))
        return 0
    ctx.check(set(avg) == set(want["avg"]) and all(abs(avg[n] - want["avg"][n]) < 1e-9 for n in avg), key + ": average prediction",
              lambda: "%r, expected %r" % (avg, want["avg"]))
    ctx.check(set(rep) == set(want["rep"]) and all(abs(rep[n] - want["rep"][n]) < 1e-9 for n in rep), key + ": representation",
              lambda: "%r, expected %r" % (rep, want["rep"]))
    ctx.check(label_ok(label, want["rep"]), key + ": label", lambda: "%r of %r" % (label, want["rep"]))
    return len([n for n in rep if rep[n]])


def opts(lab, size=None, path=None):
    o = dp.ProfilerOptions()
    o.set({"multiprocess.is_enabled": False})
    o.structured_options.data_labeler.is_enabled = True
    if path is not None:
        o.structured_options.data_labeler.data_labeler_dirpath = path
    else:
        o.structured_options.data_labeler.data_labeler_object = lab
    o.structured_options.data_labeler.max_sample_size = size
    o.structured_options.correlation.is_enabled = False
    return o


def frame(cols, a, b):
    return pd.DataFrame({"c%d" % i: pd.Series(c[a:b], dtype=object) for i, c in enumerate(cols)})


@st.composite
def tables(draw):
    n = draw(st.integers(1, 16))
    cols = []
    for _ in range(draw(st.integers(1, 2))):
        c = draw(COLUMN)
        cols.append((c + [None] * n)[:n] if draw(st.booleans()) or not c else [c[i % len(c)] for i in range(n)])
    return cols


@PROP.sub("columns", st.fixed_dictionaries({"cols": tables(), "map": st.integers(0, len(MAPS) - 1), "cuts": st.lists(st.integers(1, 15), max_size=3, unique=True),
                                            "op": st.sampled_from(["update", "merge", "update", "merge", "list"]), "save": st.sampled_from(["", "", "pickle"])}), quick=220, thorough=2500)
def run_columns(c, ctx):
    cols, k = c["cols"], c["map"]
    n = len(cols[0])
    cuts = [0] + sorted(x for x in c["cuts"] if x < n) + [n]
    with tempfile.TemporaryDirectory() as tmp:
        path = None
        lab = cell_labeler(k)
        if c["save"]:
            path = os.path.join(tmp, "lab")
            os.mkdir(path)
            lab.save_to_disk(path)
        parts = [frame(cols, a, b) for a, b in zip(cuts, cuts[1:])]
        sut.reset(1)
        if c["op"] == "update":
            p = dp.Profiler(parts[0], options=opts(lab, path=path), min_true_samples=10 ** 6)
            for df in parts[1:]:
                p.update_profile(df)
        else:
            ps = [dp.Profiler(df, options=opts(lab, path=path), min_true_samples=10 ** 6) for df in parts]
            if c["op"] == "list":
                p = util.merge_list(list(ps))
            else:
                p = ps[0]
                for q in ps[1:]:
                    p = p + q
            for q, a, b in zip(ps, cuts, cuts[1:]):
                judge_all(ctx, q, [x[a:b] for x in cols], k, c["op"] + ": operand")
        if c["save"]:
            p.save(os.path.join(tmp, "p.pkl"))
            judge_all(ctx, p, cols, k, "after saving")
            p = dp.Profiler.load(os.path.join(tmp, "p.pkl"))
        most = judge_all(ctx, p, cols, k, c["op"])
        if c["save"] and not MAPS[k][1].get("PAD") == 0:
            p.update_profile(parts[0])
            judge_all(ctx, p, [x + x[: cuts[1]] for x in cols], k, "update after loading")
    ctx.label(c["op"])
    ctx.nt(most > 1)


def judge_all(ctx, p, cols, k, key):
    rep = util.report(p)
    return max(judge(ctx, s, cols[i], k, key) for i, s in enumerate(rep["data_stats"]))


@PROP.sub("sampled", st.fixed_dictionaries({"n": st.integers(2, 40), "size": st.integers(1, 45), "map": st.integers(0, len(MAPS) - 1), "nulls": st.integers(0, 3),
                                            "times": st.integers(1, 3)}), quick=100, thorough=1000)
def run_sampled(c, ctx):
    """at most max_sample_size cells of every chunk are labelled, each of them a cell of the column and none twice"""
    cells = ["%03d" % i + "abcd" * (i % 2) for i in range(c["n"])] + [None] * c["nulls"]
    lab = cell_labeler(c["map"])
    seen = []
    inner = lab.predict

    def predict(data, *a, **kw):
        seen.append([str(x) for x in data])
        return inner(data, *a, **kw)
    lab.predict = predict
    p = None
    for _ in range(c["times"]):
        df = pd.DataFrame({"c": pd.Series(cells, dtype=object)})
        if p is None:
            p = dp.Profiler(df, options=opts(lab, c["size"]), min_true_samples=10 ** 6)
        else:
            p.update_profile(df)
    live = [x for x in cells if x is not None]
    ctx.check(len(seen) == c["times"], "one prediction per chunk", lambda: "%d" % len(seen))
    for s in seen:
        ctx.check(len(s) == min(c["size"], len(live)), "sample size", lambda: "%d of %d, maximum %d" % (len(s), len(live), c["size"]))
        ctx.check(len(set(s)) == len(s) and set(s) <= set(live), "sampled cells", lambda: repr(s))
    judge(ctx, util.report(p)["data_stats"][0], [x for s in seen for x in s], c["map"], "sampled")
    ctx.nt(1 < c["size"] < len(live))


def dict_diff(a, b):
    a, b = a or {}, b or {}
    if not a and not b:
        return "unchanged"
    out = {n: num_diff(a[n], b.get(n)) for n in a}
    out.update({n: [None, b[n]] for n in b if n not in a})
    return out


def near(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(near(got[n], want[n]) for n in want)
    if isinstance(want, list):
        return len(got) == len(want) and all(near(x, y) for x, y in zip(got, want))
    if isinstance(want, float):
        return not isinstance(got, str) and got is not None and abs(got - want) < 1e-12
    return got == want


@PROP.sub("diff", st.fixed_dictionaries({"a": COLUMN, "b": COLUMN, "map": st.integers(0, len(MAPS) - 1), "same": st.booleans()}), quick=160, thorough=1500)
def run_diff(c, ctx):
    a, b = list(c["a"]) or [None], list(c["a"] if c["same"] else c["b"]) or [None]
    lab = cell_labeler(c["map"])
    p, q = (dp.Profiler(frame([x], 0, len(x)), options=opts(lab), min_true_samples=10 ** 6) for x in (a, b))
    rp, rq = util.report(p)["data_stats"][0], util.report(q)["data_stats"][0]
    d = p.diff(q)["data_stats"][0]
    got = {"data_label": d["data_label"], "avg_predictions": d["statistics"]["avg_predictions"], "label_representation": d["statistics"]["label_representation"]}
    split = lambda r: None if r["data_label"] is None else r["data_label"].split("|")  # noqa: E731
    want = list_diff(split(rp), split(rq))
    norm = got["data_label"]
    if want != "unchanged" and isinstance(norm, list) and len(norm) == 3:
        norm = [set(x) for x in norm]
    ctx.check(norm == want, "difference of labels", lambda: "%r, expected %r" % (got["data_label"], want))
    for name, key in (("avg_predictions", "avg_predictions"), ("label_representation", "data_label_representation")):
        w = dict_diff(rp["statistics"].get(key), rq["statistics"].get(key))
        ctx.check(near(got[name], w), "difference of " + name, lambda: "%r, expected %r" % (got[name], w))
    ctx.nt(want != "unchanged")


WORD = st.text("01aAé", min_size=1, max_size=6)
LINE = st.lists(st.tuples(WORD, st.sampled_from([" ", ", ", ".", "\n", "  "])), max_size=7).map(lambda ws: "".join(w + s for w, s in ws))
TMAPS = [(RegexModel, {"UNKNOWN": 1, "PAD": 0, "NUM": 2, "LOW": 3, "UP": 4, "SIGN": 5}), (ZeroRegexModel, {"UNKNOWN": 4, "PAD": 0, "NUM": 2, "LOW": 3, "UP": 1, "SIGN": 5})]


def text_labeler(k):
    cls, mapping = TMAPS[k]
    m = cls(label_mapping=dict(mapping), parameters={"regex_patterns": {n: [p] for n, p in CLASSES.items()}, "encapsulators": {"start": "", "end": ""},
                                                     "ignore_case": False, "default_label": "UNKNOWN"})
    order = [mapping[n] for n in ("NUM", "LOW", "UP", "SIGN", "UNKNOWN", "PAD")]
    return BaseDataLabeler.load_with_components(proc.DirectPassPreprocessor(), m, proc.RegexPostProcessor(aggregation_func="priority", priority_order=order))


def word_label(w):
    n = Counter(of(ch) for ch in w)
    top, count = n.most_common(1)[0]
    return top if count > 1 and count / len(w) >= 0.75 else "UNKNOWN"


def words(text):
    out, cur = [], ""
    for ch in text + " ":
        if ch in " ,.\n":
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    return out


def counts(texts):
    word, raw, post = Counter(), Counter(), Counter()
    for t in texts:
        for w in words(t):
            word[word_label(w)] += 1
            post[word_label(w)] += len(w)
        for ch in t:
            raw[of(ch)] += 1
        post["UNKNOWN"] += sum(ch in " ,.\n" for ch in t)
    return word, raw, post


def text_opts(lab):
    o = dp.ProfilerOptions()
    o.set({"multiprocess.is_enabled": False})
    o.unstructured_options.data_labeler.is_enabled = True
    o.unstructured_options.data_labeler.data_labeler_object = lab
    o.unstructured_options.text.is_enabled = False
    return o


def positive(d):
    return {k: v for k, v in (d or {}).items() if v}


def judge_text(ctx, rep, texts, key):
    word, raw, post = counts(texts)
    got = rep["data_stats"]["data_label"]
    for name, want in (("true_char_level", raw), ("postprocess_char_level", post), ("word_level", word)):
        n = sum(want.values())
        ctx.check(positive(got["entity_counts"][name]) == positive(want), "%s: %s" % (key, name), lambda: "%r, expected %r of %r" % (got["entity_counts"][name], want, texts))
        share = {k: v / n for k, v in want.items() if v}
        have = positive(got["entity_percentages"][name])
        ctx.check(set(have) == set(share) and all(abs(have[k] - share[k]) < 1e-9 for k in have), "%s: share %s" % (key, name), lambda: "%r, expected %r" % (have, share))
    return len(positive(word))


@PROP.sub("text", st.fixed_dictionaries({"texts": st.lists(LINE, min_size=1, max_size=8), "map": st.integers(0, 1), "cuts": st.lists(st.integers(1, 7), max_size=3, unique=True),
                                         "op": st.sampled_from(["update", "merge", "list"]), "save": st.integers(0, 2)}), quick=300, thorough=3000)
def run_text(c, ctx):
    texts = c["texts"]
    cuts = [0] + sorted(x for x in c["cuts"] if x < len(texts)) + [len(texts)]
    lab = text_labeler(c["map"])
    parts = [pd.Series(texts[a:b], dtype=object) for a, b in zip(cuts, cuts[1:])]
    make = lambda s: dp.Profiler(s, options=text_opts(lab), profiler_type="unstructured", min_true_samples=10 ** 6)  # noqa: E731
    p = make(parts[0])
    if c["op"] == "update":
        for s in parts[1:]:
            p.update_profile(s)
    else:
        ps = [p] + [make(s) for s in parts[1:]]
        if c["op"] == "list":
            p = util.merge_list(list(ps))
        else:
            for q in ps[1:]:
                p = p + q
        for q, a, b in zip(ps, cuts, cuts[1:]):
            mine = [t for t in texts[a:b] if t.strip()]
            if mine:
                judge_text(ctx, util.report(q), mine, c["op"] + ": operand")
    live = [t for t in texts if t.strip()]
    if c["save"] == 0:
        with tempfile.TemporaryDirectory() as tmp:
            p.save(os.path.join(tmp, "p.pkl"))
            judge_text(ctx, util.report(p), live, "after saving")
            p = dp.Profiler.load(os.path.join(tmp, "p.pkl"))
    if not live:
        return
    ctx.nt(judge_text(ctx, util.report(p), live, c["op"]) > 1)
    ctx.label(c["op"])


@PROP.sub("last", st.fixed_dictionaries({"texts": st.lists(st.tuples(LINE.filter(lambda t: t.strip()), WORD), min_size=1, max_size=4), "map": st.integers(0, 1)}), quick=60, thorough=500)
def run_last(c, ctx):
    """texts which end with a word"""
    texts = [a + b for a, b in c["texts"]]
    p = dp.Profiler(pd.Series(texts, dtype=object), options=text_opts(text_labeler(c["map"])), profiler_type="unstructured", min_true_samples=10 ** 6)
    got = util.report(p)["data_stats"]["data_label"]["entity_counts"]
    word, raw, post = counts(texts)
    ctx.check(positive(got["true_char_level"]) == positive(raw), "true_char_level", lambda: "%r, expected %r" % (got["true_char_level"], raw))
    ctx.check(positive(got["postprocess_char_level"]) == positive(post), "postprocess_char_level", lambda: "%r, expected %r" % (got["postprocess_char_level"], post))
    lost = sum(word_label(words(t)[-1]) == "UNKNOWN" for t in texts)
    less = Counter(word)
    less["UNKNOWN"] -= lost
    have = positive(got["word_level"])
    if lost and have == positive(less):
        ctx.fail("the last unlabelled word of a text is not counted", "%r of %r" % (have, texts))
    ctx.check(have == positive(word), "word_level", lambda: "%r, expected %r of %r" % (have, word, texts))
    ctx.nt(len(positive(word)) > 1)
