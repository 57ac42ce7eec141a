"""P26: labels of characters stay with their characters through flattening, batching and reassembly."""
import contextlib
import io
import os
import tempfile
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import sut  # noqa: F401
from vp.core import Prop
from dataprofiler.labelers import data_processing as proc  # noqa: E402

PROP = Prop("P26", "some text is split over several samples or shares a sample with another (cells, ner, words: several labels)",
            ["a model gives one label (and one row of confidences) per character of every sample it is given, as the models here do",
             "characters are not NUL at the end of a cell (numpy strings end there)"])

BREAKS = " \n,\t;"
SEPS = [" ", "", "  ", "\x01" * 5, "ab", "     "]


def uniq(shapes):
    """texts of the given shapes (True: a break character), every other character different"""
    k, out = 0, []
    for s in shapes:
        t = ""
        for b in s:
            if b:
                t += BREAKS[b % len(BREAKS)]
            else:
                t += chr(0x4E00 + k)
                k += 1
        out.append(t)
    return out


SHAPES = st.lists(st.one_of(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3]), max_size=40), st.lists(st.just(0), max_size=40),
                            st.lists(st.sampled_from([0, 0, 1]), max_size=6), st.lists(st.sampled_from([0, 0, 1]), max_size=3)),
                  min_size=0, max_size=9)
PARAMS = st.fixed_dictionaries({"max": st.integers(6, 24), "split": st.sampled_from([0, 0.3, 0.5, 0.75, 1, 1]), "sep": st.sampled_from(SEPS),
                                "at_max": st.booleans(), "batch": st.sampled_from([1, 2, 3, 5, 32])})


def pre(p, cls, **kw):
    if cls is not proc.StructCharPreprocessor:
        kw["flatten_split"] = p["split"]
    return cls(max_length=p["max"], flatten_separator=p["sep"], is_separate_at_max_len=p["at_max"], **kw)


def code(ch):
    return ord(ch) % 997 + 3


def stub(samples, conf):
    res = {"pred": [np.array([code(ch) for ch in s], dtype=int) for s in samples]}
    if conf:
        res["conf"] = [np.array([[code(ch), ord(ch)] for ch in s], dtype=float).reshape(-1, 2) for s in samples]
    return res


def pieces(t, p):
    """A text on its own, cut at the maximal length, or before the last break character which is not beyond it."""
    out = []
    while len(t) > p["max"]:
        at = p["max"]
        if not p["at_max"]:
            at = next((i for i in range(p["max"], 0, -1) if t[i] in BREAKS), at)
        out.append(t[:at])
        t = t[at:]
    return out + [t] if t else out


def judge_batches(ctx, batches, p, data):
    ctx.check(all(len(b) == p["batch"] for b in batches[:-1]) and all(0 < len(b) <= p["batch"] for b in batches), "batch sizes",
              lambda: "%r for %d" % ([len(b) for b in batches], p["batch"]))
    samples = [row[0] for b in batches for row in b]
    ctx.check(all(0 < len(s) <= p["max"] for s in samples), "sample lengths", lambda: "%r, maximum %d" % (samples, p["max"]))
    ours = set("".join(data)) - set(BREAKS)
    ctx.check([ch for s in samples for ch in s if ch in ours] == [ch for s in data for ch in s if ch in ours], "characters",
              lambda: "%r of %r" % (samples, data))
    return samples


@PROP.sub("align", st.fixed_dictionaries({"shapes": SHAPES, "p": PARAMS, "struct": st.booleans(), "conf": st.booleans(),
                                          "src": st.sampled_from(["object", "str", "column"])}), quick=2500, thorough=25000)
def run_align(c, ctx):
    p = c["p"]
    data = uniq(c["shapes"])
    arr = np.array(data, dtype=object if c["src"] == "object" or not data else str)
    if c["src"] == "column":
        arr = arr.reshape(-1, 1)
    cls, back = (proc.StructCharPreprocessor, proc.StructCharPostprocessor) if c["struct"] else (proc.CharPreprocessor, proc.CharPostprocessor)
    batches = list(pre(p, cls).process(arr, batch_size=p["batch"]))
    samples = judge_batches(ctx, batches, p, data)
    if not c["struct"] and not p["split"]:
        want = [x for t in data for x in pieces(t, p)]
        ctx.check(samples == want, "places of the cuts", lambda: "%r, expected %r" % (samples, want))
        ctx.label("cut" if len(want) > len([t for t in data if t]) else "uncut")
    res = stub(samples, c["conf"])
    got = back.match_sentence_lengths(np.array(data, dtype=object), dict(res), p["sep"])
    ctx.check(len(got["pred"]) == len(data), "texts", lambda: "%d for %d" % (len(got["pred"]), len(data)))
    for i, s in enumerate(data):
        ctx.check(list(got["pred"][i]) == [code(ch) for ch in s], "characters and labels", lambda: "%r: %r of %r" % (s, got["pred"][i], samples))
        if c["conf"]:
            ctx.check(np.array_equal(np.reshape(got["conf"][i], (-1, 2)), np.array([[code(ch), ord(ch)] for ch in s]).reshape(-1, 2)),
                      "characters and confidences", lambda: "%r: %r" % (s, got["conf"][i]))
    if not c["struct"]:  # the public way
        got = proc.CharPostprocessor(flatten_separator=p["sep"], use_word_level_argmax=False, output_format="character_argmax").process(
            np.array(data, dtype=object), stub(samples, c["conf"]), {"UNKNOWN": 0, "PAD": 1})
        ctx.check([list(x) for x in got["pred"]] == [[code(ch) for ch in s] for s in data], "postprocessor", "")
    ctx.nt(len(samples) != len([s for s in data if s]) and len(samples) > 1)


LABELS = ["UNKNOWN", "PAD", "A", "B", "C"]
MAP = {"UNKNOWN": 1, "PAD": 0, "A": 2, "B": 3, "C": 4}


@PROP.sub("train", st.fixed_dictionaries({"shapes": SHAPES, "p": PARAMS, "struct": st.booleans(), "labels": st.lists(st.lists(st.tuples(
    st.integers(0, 40), st.integers(0, 20), st.sampled_from(["A", "B", "C", "UNKNOWN"])), max_size=3), min_size=9, max_size=9),
    "encoded": st.booleans(), "table": st.booleans()}), quick=1200, thorough=12000)
def run_train(c, ctx):
    p = c["p"]
    data = uniq(c["shapes"])
    if not data:
        data = [chr(0x4E00)]
    want = {}
    sets = []
    for s, ls in zip(data, c["labels"]):
        if c["struct"]:
            lab = ls[0][2] if ls else "UNKNOWN"
            sets.append(lab)
            chars = [lab] * len(s)
        else:
            spans = [(a, a + n, lab) for a, n, lab in ls if a + n <= len(s)]
            sets.append(spans)
            chars = ["UNKNOWN"] * len(s)
            for a, b, lab in spans:
                chars[a:b] = [lab] * (b - a)
        for ch, lab in zip(s, chars):
            want[ch] = lab
    labels = np.array(sets, dtype=object) if c["struct"] else np.empty(len(sets), dtype=object)
    if not c["struct"]:
        for i, x in enumerate(sets):
            labels[i] = x
    arr = np.array(data, dtype=object)
    shape = (2, -1) if c["struct"] and c["table"] and len(data) % 2 == 0 else (-1,)
    arr, labels = arr.reshape(shape), labels.reshape(shape)
    enc = {chr(0x4E00 + k): k + 1 for k in range(0, 400, 2)}
    if c["struct"]:
        pp = pre(p, proc.StructCharPreprocessor)
    elif c["encoded"]:
        pp = pre(p, proc.CharEncodedPreprocessor, encoding_map=enc)
    else:
        pp = pre(p, proc.CharPreprocessor)
    out = list(pp.process(arr, labels, MAP, batch_size=p["batch"]))
    plain = list(pre(p, proc.StructCharPreprocessor if c["struct"] else proc.CharPreprocessor).process(arr, batch_size=p["batch"]))
    samples = judge_batches(ctx, plain, p, data)
    ctx.check([len(x) for x, _ in out] == [len(x) for x in plain], "batches", lambda: "%r / %r" % ([len(x) for x, _ in out], [len(x) for x in plain]))
    xs = [row for x, _ in out for row in x]
    ys = [row for _, y in out for row in y]
    ctx.check(len(xs) == len(ys), "as many labels", "")
    for s, x, y in zip(samples, xs, ys):
        if isinstance(pp, proc.CharEncodedPreprocessor):
            ctx.check(list(x) == [enc.get(ch, 0) for ch in s] + [0] * (p["max"] - len(s)), "encoded", lambda: "%r: %r" % (s, x))
        else:
            ctx.check(list(x) == [s], "sample", lambda: "%r / %r" % (x, s))
        ctx.check(y.shape == (p["max"], 5) and np.array_equal(y.sum(axis=1), np.ones(p["max"])), "one label each", lambda: repr(y.shape))
        got = [int(k) for k in y.argmax(axis=1)]
        for j, ch in enumerate(s):
            if ch in want and ch not in BREAKS:
                ctx.check(got[j] == MAP[want[ch]], "label of a character", lambda: "%r[%d]: %r, %r" % (s, j, got, want[ch]))
        ctx.check(got[len(s):] == [MAP["PAD"]] * (p["max"] - len(s)), "padding", lambda: "%r: %r" % (s, got))
    ctx.nt(len(samples) > 1 and len(samples) != len(data) and len(set(want.values())) > 1)


MAPS = [{"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3, "C": 4}, {"PAD": 1, "UNKNOWN": 0, "A": 3, "B": 2, "C": 5}, {"UNKNOWN": 3, "PAD": 4, "A": 0, "B": 1, "C": 2}]
PREDS = st.lists(st.sampled_from(LABELS + ["A", "UNKNOWN"]), max_size=14)


def arrays(preds, mapping):
    return [np.array([mapping[x] for x in p], dtype=int) for p in preds]


@PROP.sub("ner", st.fixed_dictionaries({"preds": st.lists(PREDS, max_size=5), "map": st.sampled_from(range(3))}), quick=1500, thorough=12000)
def run_ner(c, ctx):
    m = MAPS[c["map"]]
    data = ["x" * len(p) for p in c["preds"]]
    pp = proc.CharPostprocessor(use_word_level_argmax=False, output_format="ner", flatten_separator=" ")
    live = [p for p in c["preds"] if p]
    got = pp.process(np.array(data, dtype=object), {"pred": arrays(live, m)}, m)["pred"]
    want = []
    for p in c["preds"]:
        spans, i = [], 0
        while i < len(p):
            j = i
            while j < len(p) and p[j] == p[i]:
                j += 1
            if p[i] not in ("PAD", "UNKNOWN"):
                spans.append((i, j, p[i]))
            i = j
        want.append(spans)
    ctx.check([[tuple(x) for x in s] for s in got] == want, "spans", lambda: "%r, expected %r" % (got, want))
    ctx.nt(sum(map(len, want)) > 2)


@PROP.sub("cells", st.fixed_dictionaries({"preds": st.lists(PREDS, max_size=6), "map": st.sampled_from(range(3)), "conf": st.booleans(),
                                          "names": st.booleans(), "seed": st.integers(0, 9), "save": st.booleans()}), quick=1500, thorough=12000)
def run_cells(c, ctx):
    m = MAPS[c["map"]]
    data = ["x" * len(p) for p in c["preds"]]
    pp = proc.StructCharPostprocessor(is_pred_labels=c["names"], random_state=c["seed"])
    if c["save"]:
        with tempfile.TemporaryDirectory() as tmp:
            pp.save_to_disk(tmp)
            pp = proc.StructCharPostprocessor.load_from_disk(tmp)
    live = [p for p in c["preds"] if p]
    res = {"pred": arrays(live, m)}
    if c["conf"]:
        res["conf"] = [np.zeros((len(p), max(m.values()) + 1)) for p in live]
    got = pp.process(np.array(data, dtype=object), res, m)
    ctx.check(len(got["pred"]) == len(data), "cells", lambda: "%r for %d" % (got["pred"], len(data)))
    for i, p in enumerate(c["preds"]):
        n = Counter(x for x in p if x != "PAD")
        top = {x for x in n if n[x] == max(n.values())}
        if len(top) > 1:
            top -= {"UNKNOWN"}
        g = got["pred"][i]
        if not top:
            ctx.check(g is None or g != g, "cell without labels", lambda: "%r: %r" % (p, got["pred"]))
        elif c["names"]:
            ctx.check(g in top, "label", lambda: "%r: %r" % (p, g))
        else:
            ctx.check(g in {m[x] for x in top}, "label", lambda: "%r: %r" % (p, g))
        if c["conf"]:
            row = np.zeros(max(m.values()) + 1)
            for x in n:
                row[m[x]] = n[x] / sum(n.values())
            ctx.check(np.allclose(got["conf"][i], row), "shares", lambda: "%r: %r" % (p, got["conf"][i]))
    ctx.nt(len({x for p in live for x in p} - {"PAD"}) > 1)


WSEPS = [" ", ",", "."]


@PROP.sub("words", st.fixed_dictionaries({"texts": st.lists(st.lists(st.tuples(st.sampled_from("abcd ,."), st.sampled_from(["UNKNOWN", "A", "A", "B"])),
                                                                     max_size=16), max_size=4),
                                          "map": st.sampled_from(range(3)), "share": st.sampled_from([0, 0.3, 0.5, 0.75, 1])}), quick=1500, thorough=12000)
def run_words(c, ctx):
    m = MAPS[c["map"]]
    data = ["".join(ch for ch, _ in t) for t in c["texts"]]
    live = [[x for _, x in t] for t in c["texts"] if t]
    pp = proc.CharPostprocessor(use_word_level_argmax=True, output_format="character_argmax", flatten_separator=" ", separators=WSEPS,
                                word_level_min_percent=c["share"])
    got = pp.process(np.array(data, dtype=object), {"pred": arrays(live, m)}, m)["pred"]
    ctx.check(len(got) == len(data), "texts", "")
    several = 0
    for t, s, g in zip(c["texts"], data, got):
        ctx.check(len(g) == len(s), "length", lambda: "%r: %r" % (s, g))
        i = 0
        while i < len(s):
            j = i
            while j < len(s) and s[j] not in WSEPS:
                j += 1
            if j == i:
                i += 1
                continue
            n = Counter(x for _, x in t[i:j])
            ok = [x for x in n if n[x] / (j - i) >= c["share"] and n[x] > 1]
            best = max([n[x] for x in ok] or [0])
            top = {x for x in ok if n[x] == best} or {"UNKNOWN"}
            if i == 0 and j == len(s):  # a text of one word keeps its labels
                break
            several += len(n) > 1
            ctx.check(len(set(g[i:j])) == 1 and g[i] in {m[x] for x in top}, "one label per word",
                      lambda: "%r of %r: %r from %r" % (s[i:j], s, list(g[i:j]), [x for _, x in t[i:j]]))
            i = j
    ctx.nt(several)


@PROP.sub("saved", st.fixed_dictionaries({"p": PARAMS, "kind": st.sampled_from(["char", "struct", "encoded", "post", "cells"]), "share": st.sampled_from([0, 0.5, 1]),
                                          "ner": st.booleans(), "other": st.sampled_from(["same", "max", "sep", "at_max", "label"])}), quick=400, thorough=3000)
def run_saved(c, ctx):
    """processors are equal exactly if their parameters are, also after saving and loading"""
    def make(p, label):
        k = c["kind"]
        if k == "char":
            return pre(p, proc.CharPreprocessor, default_label=label)
        if k == "struct":
            return pre(p, proc.StructCharPreprocessor, default_label=label)
        if k == "encoded":
            return pre(p, proc.CharEncodedPreprocessor, encoding_map={"a": p["max"]}, default_label=label)
        if k == "post":
            return proc.CharPostprocessor(default_label=label, flatten_separator=p["sep"], use_word_level_argmax=p["at_max"],
                                          output_format="ner" if c["ner"] else "character_argmax", word_level_min_percent=p["max"] / 100)
        return proc.StructCharPostprocessor(default_label=label, flatten_separator=p["sep"], is_pred_labels=p["at_max"])
    a = make(c["p"], "UNKNOWN")
    with tempfile.TemporaryDirectory() as tmp:
        a.save_to_disk(tmp)
        b = type(a).load_from_disk(tmp)
    q = dict(c["p"])
    other = c["other"]
    if other == "max":
        q["max"] += 1
    if other == "sep":
        q["sep"] += "z"
    if other == "at_max":
        q["at_max"] = not q["at_max"]
    d = make(q, "OTHER" if other == "label" else "UNKNOWN")
    alike = other == "same" or (other == "max" and c["kind"] == "cells")
    ctx.check(a == b and b == a and not a != b, "equal after loading", lambda: repr((a._parameters, b._parameters)))
    for x in (a, b):
        ctx.check((x == d) == alike and (d == x) == alike, "equality", lambda: "%r is equal: %r" % (other, x == d))
    pa, pb = a.get_parameters(), b.get_parameters()
    pa.pop("random_state", None), pb.pop("random_state", None)
    norm = lambda d: {k: list(v) if isinstance(v, tuple) else v for k, v in d.items()}  # noqa: E731
    ctx.check(norm(pa) == norm(pb), "parameters", lambda: "%r / %r" % (pa, pb))
    ctx.nt(True)
