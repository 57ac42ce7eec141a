"""P25: pattern and column name labelers label what their rules say."""
import contextlib
import io
import os
import random
import re
import tempfile

import numpy as np
import pandas as pd
import rapidfuzz
from hypothesis import strategies as st

from vp import sut
from vp.core import Prop
from vp.sut import dp
from dataprofiler.labelers import data_processing as proc  # noqa: E402
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler  # noqa: E402
from dataprofiler.labelers.column_name_model import ColumnNameModel  # noqa: E402
from dataprofiler.labelers.regex_model import RegexModel  # noqa: E402

PROP = Prop("P25", "some characters match several labels and some none (names: some are labelled and some not)",
            ["patterns are valid regular expressions, searched by Python's re as documented; encapsulators are added to their ends",
             "the column name score is rapidfuzz's token_sort_ratio of the lower case names, as documented"])

LABELS = ["UNKNOWN", "NUM", "WORD", "ABC", "X-1", "É"]
PATTERNS = [r"\d+", r"[a-c]+", r"ab?c", r"[A-Z]", r"\w+", r"b|c1", r"\.", r" ", r"(a)(b)", r"é+", r"a{2}", r"\d-\d", r"c", r"(?:)", r"$", r"."]
ENCAPS = [{"start": "", "end": ""}, {"start": r"(?<![\w.\$\%\-])", "end": r"(?:(?=(\b|[ ]))|(?=[^\w\%\$]([^\w]|$))|$)"},
          {"start": r"\b", "end": ""}, {"start": "", "end": r"\b"}, {"start": "[ab ]", "end": "c?"}, {"start": "", "end": "(?!1)"},
          {"start": "-?", "end": "[.1]"}]
TEXT = st.text("aabbcAB1 12.-éÉ\n", min_size=1, max_size=14)


@st.composite
def rules(draw, pattern=True):
    few = draw(st.integers(0, 4)) == 0
    case, enc, compiled = draw(st.booleans()), draw(st.sampled_from(ENCAPS)), pattern and draw(st.integers(0, 5)) == 0
    labels = ["UNKNOWN"] + draw(st.lists(st.sampled_from(LABELS[1:]), min_size=1 if few else 3, max_size=4, unique=True))
    mapping = {k: i + draw(st.sampled_from([0, 0, 0, 2])) for i, k in enumerate(draw(st.permutations(labels)))}
    broad = st.sampled_from([r"\w+", ".", r"[a-c]+", r"\d+", r"[ab]", "a"])
    pats = {k: draw(st.lists(st.one_of(st.sampled_from(PATTERNS), broad), min_size=0 if few else 1, max_size=3))
            for k in draw(st.lists(st.sampled_from(labels), unique=True, min_size=0 if few else 3, max_size=5))}
    default = draw(st.sampled_from(labels))
    pats = {k: v for k, v in pats.items() if mapping[k] != mapping[default]}  # the default label is what no pattern claims
    return {"mapping": mapping, "patterns": pats, "case": case, "enc": enc, "default": default,
            "compiled": compiled}


def make_model(r):
    pats = {k: [re.compile(p) if r["compiled"] else p for p in v] for k, v in r["patterns"].items()}
    return RegexModel(label_mapping=dict(r["mapping"]), parameters={"regex_patterns": pats, "encapsulators": dict(r["enc"]),
                                                                   "ignore_case": r["case"], "default_label": r["default"]})


def votes(r, s):
    """the labels (indices) of every character"""
    out = [set() for _ in s]
    for label, pats in r["patterns"].items():
        for p in pats:
            for m in re.finditer(r["enc"]["start"] + p + r["enc"]["end"], s, re.IGNORECASE if r["case"] else 0):
                for i in range(*m.span()):
                    out[i].add(r["mapping"][label])
    return [v or {r["mapping"][r["default"]]} for v in out]


def quietly(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def rich(vs):
    sizes = {len(x) for v in vs for x in v}
    return len(sizes) > 1


BULK = st.one_of(st.lists(TEXT, max_size=6), st.lists(TEXT, max_size=6), st.tuples(TEXT, st.integers(90, 230)).map(
    lambda t: [t[0] + "ab1 "[i % 4] for i in range(t[1])]))


@PROP.sub("model", st.fixed_dictionaries({"r": rules(), "data": st.lists(st.one_of(TEXT, st.just("")), max_size=6), "bulk": st.integers(0, 12),
                                          "n": st.integers(99, 230), "conf": st.booleans(), "verbose": st.booleans(), "then": st.sampled_from(["", "again", "enc", "case", "patterns"]),
                                          "enc": st.sampled_from(ENCAPS)}),
          quick=1200, thorough=10000)
def run_model(c, ctx):
    r = c["r"]
    m = make_model(r)
    judge_model(ctx, m, r, c)
    if c["then"]:  # a second prediction, also after a change of the rules
        r = dict(r)
        if c["then"] == "enc":
            r["enc"] = c["enc"]
            m.set_params(encapsulators=dict(r["enc"]))
        elif c["then"] == "case":
            r["case"] = not r["case"]
            m.set_params(ignore_case=r["case"])
        elif c["then"] == "patterns":
            r["patterns"] = {k: v[:-1] + ["ab"] for k, v in r["patterns"].items()}
            r["compiled"] = False
            m.set_params(regex_patterns={k: list(v) for k, v in r["patterns"].items()})
        judge_model(ctx, m, r, c)
        ctx.label("then-" + c["then"])


def judge_model(ctx, m, r, c):
    data = c["data"]
    if c["bulk"] == 0:
        data = [(data[i % len(data)] if data else "") + "ab1 "[i % 4] for i in range(c["n"])]
        ctx.label("bulk")
    got = quietly(m.predict, iter(data) if c["verbose"] else data, show_confidences=c["conf"], verbose=c["verbose"])
    ctx.check(set(got) == ({"pred", "conf"} if c["conf"] else {"pred"}), "keys", lambda: repr(set(got)))
    ctx.check(len(got["pred"]) == len(data), "samples", lambda: "%d predictions for %d samples" % (len(got["pred"]), len(data)))
    width = max(r["mapping"].values()) + 1
    vs = [votes(r, s) for s in data]
    for i, s in enumerate(data):
        p = got["pred"][i]
        ctx.check(p.shape == (len(s), width), "shape", lambda: "%r for %r, %d labels" % (p.shape, s, width))
        want = [[1 if k in v else 0 for k in range(width)] for v in vs[i]]
        ctx.check(p.tolist() == want, "votes", lambda: "%r: %r, expected %r" % (s, p.tolist(), want))
        if c["conf"]:
            q = got["conf"][i]
            ctx.check(q.shape == p.shape and np.allclose(q, np.array([[x / sum(w) for x in w] for w in want]).reshape(q.shape)), "confidence",
                      lambda: "%r: %r" % (s, q.tolist()))
    ctx.nt(rich(vs))


def post(kind, order, seed):
    if kind == "struct":
        return proc.StructRegexPostProcessor(random_state=seed)
    return proc.RegexPostProcessor(aggregation_func=kind, priority_order=order, random_state=seed)


def judge_post(ctx, kind, order, r, data, res, conf):
    width = max(r["mapping"].values()) + 1
    vs = [votes(r, s) for s in data]
    share = [np.array([[1 / len(v) if k in v else 0 for k in range(width)] for v in x]) for x in vs]
    ctx.check(len(res["pred"]) == len(data), "samples", lambda: "%d for %d" % (len(res["pred"]), len(data)))
    if kind == "struct":
        for i, s in enumerate(data):
            mean = share[i].mean(axis=0)
            top = {k for k in range(width) if mean[k] >= mean.max() - 1e-9}
            ctx.check(int(res["pred"][i]) in top, "cell label", lambda: "%r: %r of %r" % (s, res["pred"][i], mean.tolist()))
            if conf:
                ctx.check(np.allclose(res["conf"][i], mean), "cell confidence", lambda: "%r: %r of %r" % (s, res["conf"][i], mean.tolist()))
        return
    before = {}
    for i, s in enumerate(data):
        got = res["pred"][i]
        if kind == "split":
            ctx.check(got.shape == share[i].shape and np.allclose(got, share[i]), "split", lambda: "%r: %r" % (s, got.tolist()))
            continue
        ctx.check(len(got) == len(s), "length", lambda: "%r: %r" % (s, got))
        for j, v in enumerate(vs[i]):
            g = int(got[j])
            if kind == "priority":
                want = next(k for k in order if k in v)
                ctx.check(g == want, "priority", lambda: "%r[%d]: %d of %r, order %r" % (s, j, g, v, order))
            else:
                ctx.check(g in v, "random label", lambda: "%r[%d]: %d of %r" % (s, j, g, v))
                for k in v - {g}:
                    before.setdefault(g, set()).add(k)
    if kind == "random":  # one order for all characters: no cycle
        state = {}

        def walk(k, depth=0):
            state[k] = 1
            for n in before.get(k, ()):
                if state.get(n) == 1 or (n not in state and not walk(n, depth + 1)):
                    return False
            state[k] = 2
            return True
        ctx.check(all(walk(k) for k in list(before) if k not in state), "random order", lambda: repr(before))


@PROP.sub("post", st.fixed_dictionaries({"r": rules(False), "data": st.lists(TEXT, min_size=1, max_size=6), "kind": st.sampled_from(
    ["split", "priority", "random", "struct"]), "seed": st.integers(0, 99), "conf": st.booleans(), "perm": st.permutations(range(9)).map(list),
    "array": st.booleans(), "src": st.sampled_from(["list", "series", "array", "frame"]), "save": st.booleans(), "first": st.booleans()}), quick=900, thorough=8000)
def run_post(c, ctx):
    """through a whole labeler, saved and loaded"""
    r, data, kind = c["r"], c["data"], c["kind"]
    width = max(r["mapping"].values()) + 1
    order = [k for k in c["perm"] if k < width]
    parts = (proc.DirectPassPreprocessor(), make_model(r), post(kind, np.array(order) if c["array"] else list(order), c["seed"]))
    lab = BaseDataLabeler.load_with_components(*parts)
    src = {"list": lambda: list(data), "series": lambda: pd.Series(data, index=[3] * len(data)), "array": lambda: np.array(data, dtype=object),
           "frame": lambda: pd.DataFrame({"c": data})}[c["src"]]()
    keep = list(data)
    with tempfile.TemporaryDirectory() as tmp:
        if c["first"]:  # used before it is saved
            judge_post(ctx, kind, order, r, data, quietly(lab.predict, src, verbose=False), False)
        if c["save"]:
            lab.save_to_disk(tmp)
            other = dp.DataLabeler.load_from_disk(tmp) if hasattr(dp.DataLabeler, "load_from_disk") else BaseDataLabeler(tmp)
            ctx.check(other == lab and not (other != lab), "equal after loading", lambda: repr(r))
            ctx.check(other.label_mapping == r["mapping"], "label mapping", lambda: repr(other.label_mapping))
        else:
            other = None
        opts = {"show_confidences": c["conf"]}
        res = quietly(lab.predict, src, predict_options=opts, verbose=False)
        judge_post(ctx, kind, order, r, data, res, c["conf"])
        ctx.check(data == keep, "input changed", "")
        if other is not None:
            again = quietly(other.predict, src, predict_options=opts, verbose=False)
            same = all(np.array_equal(a, b) for a, b in zip(res["pred"], again["pred"])) and len(res["pred"]) == len(again["pred"])
            ctx.check(same, "loaded labeler predicts alike", lambda: "%r / %r" % (res["pred"], again["pred"]))
            ctx.label("saved")
    ctx.label(kind)
    ctx.nt(rich([votes(r, s) for s in data]))


NAMES = ["ssn", "SSN", "name", "first name", "name first", "First_Name", "email", "e mail", "mail", "dob", "date of birth", "birth date", "zip",
         "zip code", "code", "", " ", "nom", "naem", "é"]


@PROP.sub("names", st.fixed_dictionaries({
    "pos": st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(["ssn", "name", "mail"])), min_size=1, max_size=6),
    "neg": st.one_of(st.none(), st.lists(st.sampled_from(NAMES), min_size=1, max_size=3)), "pt": st.sampled_from([0, 50, 85, 99, 100]),
    "nt": st.sampled_from([0, 40, 80, 100, 101]), "data": st.lists(st.sampled_from(NAMES), max_size=8), "conf": st.booleans(), "save": st.booleans()}),
    quick=700, thorough=6000)
def run_names(c, ctx):
    mapping = {"ssn": 1, "name": 2, "mail": 3}
    pos = [{"attribute": a, "label": b} for a, b in c["pos"]]
    neg = None if c["neg"] is None else [{"attribute": a, "label": "x"} for a in c["neg"]]
    m = ColumnNameModel(mapping, {"true_positive_dict": pos, "false_positive_dict": neg, "positive_threshold_config": c["pt"],
                                  "negative_threshold_config": None if neg is None else c["nt"], "include_label": True})
    lab = BaseDataLabeler.load_with_components(proc.DirectPassPreprocessor(), m, proc.ColumnNameModelPostprocessor())
    if c["save"]:
        with tempfile.TemporaryDirectory() as tmp:
            lab.save_to_disk(tmp)
            other = dp.DataLabeler.load_from_disk(tmp)
        ctx.check(other == lab, "equal after loading", "")
        lab = other
    score = lambda a, b: rapidfuzz.fuzz.token_sort_ratio(a.lower(), b.lower())  # noqa: E731
    want, conf = [], []
    for name in c["data"]:
        if neg and max(score(name, x) for x in c["neg"]) >= c["nt"]:
            continue
        s = [score(name, a) for a, _ in c["pos"]]
        if max(s) > c["pt"]:
            want.append({b for (_, b), x in zip(c["pos"], s) if x >= max(s) - 1e-3})
            conf.append(max(s))
    got = quietly(lab.predict, list(c["data"]), predict_options={"show_confidences": c["conf"]}, verbose=False)
    pred = list(got["pred"])
    ctx.check(len(pred) == len(want) and all(p in w for p, w in zip(pred, want)), "labels", lambda: "%r, expected %r for %r" % (pred, want, c["data"]))
    if c["conf"]:
        ctx.check(len(got["conf"]) == len(conf) and np.allclose(got["conf"], conf, atol=1e-3), "scores", lambda: "%r / %r" % (got["conf"], conf))
    ctx.nt(0 < len(want) < len(c["data"]))
