"""P27: labelers label texts alike however they are given, kept or trained."""
import atexit
import contextlib
import copy
import functools
import io
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import sut
from vp.core import Prop
from vp.sut import dp
from dataprofiler.labelers import data_processing as proc  # noqa: E402
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler, TrainableDataLabeler  # noqa: E402
from dataprofiler.labelers.base_model import BaseTrainableModel  # noqa: E402

PROP = Prop("P27", "several samples are predicted and more than one label (several batches, epochs or changes of labels)",
            ["the network's arithmetic may differ by rounding with the shape of a batch: labels are compared where the two best "
             "confidences differ by more than 1e-4, confidences to 1e-4"])

SIZE = 12
MAPPING = {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3, "C": 4}
TEXT = st.text("abcXYZ 019.,-éß漢😀\n", max_size=30)
TEXTS = st.one_of(*[st.lists(TEXT, max_size=7)] * 6, st.tuples(st.text("abc 1漢", max_size=6), st.integers(20, 70)).map(
    lambda t: [t[0] + str(i) for i in range(t[1])]))


def quietly(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)


@functools.lru_cache(maxsize=None)
def own_embeddings():
    """networks are constructed with a reduced embedding file written beside the source: give every process its own"""
    from dataprofiler.labelers import character_level_cnn_model as m
    if hasattr(m, "_file_dir") and os.path.isdir(os.path.join(m._file_dir, "embeddings")):
        tmp = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, tmp, True)
        os.mkdir(os.path.join(tmp, "embeddings"))
        for name in os.listdir(os.path.join(m._file_dir, "embeddings")):
            if "reduced" not in name:
                shutil.copy(os.path.join(m._file_dir, "embeddings", name), os.path.join(tmp, "embeddings"))
        m._file_dir = tmp


def network(seed):
    from dataprofiler.labelers.character_level_cnn_model import CharacterLevelCnnModel
    own_embeddings()
    m = CharacterLevelCnnModel(dict(MAPPING), dict(max_length=SIZE, max_char_encoding_id=127, dim_embed=4, size_fc=[6, 5], size_conv=3, num_fil=[4],
                                                   dropout=0.1, default_label="UNKNOWN"))
    m._construct_model()
    rng = np.random.RandomState(seed)
    m._model.set_weights([w if w.size == 5 and not w.any() else rng.normal(0, 1.5, w.shape) for w in m._model.get_weights()])
    # batch normalisation keeps a positive variance, the threshold layer its zero thresholds
    for layer in m._model.layers:
        if layer.__class__.__name__ == "BatchNormalization":
            layer.moving_variance.assign(np.abs(layer.moving_variance.numpy()) + 0.1)
        if hasattr(layer, "thresh_vec"):
            layer.thresh_vec.assign(np.zeros(5))
    return m


@functools.lru_cache(maxsize=None)
def labeler(kind, seed):
    own_embeddings()
    if kind == "structured":
        return dp.DataLabeler(labeler_type="structured")
    if kind == "unstructured":
        return dp.DataLabeler(labeler_type="unstructured")
    m = network(seed)
    if kind == "cells":
        return BaseDataLabeler.load_with_components(proc.StructCharPreprocessor(max_length=SIZE, flatten_separator=" ", is_separate_at_max_len=True), m,
                                                    proc.StructCharPostprocessor(flatten_separator=" ", random_state=3))
    split = {"text": 0, "flat": 1.0}[kind]
    return BaseDataLabeler.load_with_components(proc.CharPreprocessor(max_length=SIZE, flatten_split=split, is_separate_at_max_len=True), m,
                                                proc.CharPostprocessor())


def contain(data, src):
    if src == "list":
        return list(data)
    if src == "series":
        return pd.Series(list(data), index=[7] * len(data), dtype=object)
    if src == "frame":
        return pd.DataFrame({"x": pd.Series(list(data), dtype=object)})
    if src == "reader":
        return dp.Data(data=pd.DataFrame({"x": pd.Series(list(data), dtype=object)}), data_type="csv")
    return np.array(list(data), dtype=object).reshape((-1, 1) if src == "column" else -1)


def predict(lab, data, src="list", batch=32):
    return quietly(lab.predict, contain(data, src), batch_size=batch, predict_options={"show_confidences": True}, verbose=False)


def sure(row):
    row = np.sort(np.asarray(row, dtype=float))
    return row[-1] - row[-2] > 1e-4


def agree(ctx, a, b, key, what):
    """two predictions of the characters of one text"""
    ctx.check(len(a["pred"]) == len(b["pred"]) and np.allclose(a["conf"], b["conf"], atol=1e-4), key, what)
    for x, y, row in zip(a["pred"], b["pred"], a["conf"]):
        ctx.check(x == y or not sure(row), key, what)


def part(res, i):
    return {"pred": list(res["pred"][i]), "conf": np.asarray(res["conf"][i], dtype=float)}


SRC = st.sampled_from(["list", "series", "frame", "array", "column", "reader"])


def judge_texts(ctx, c, lab, alone, width, known):
    data = c["data"]
    keep = list(data)
    res = predict(lab, data)
    ctx.check(len(res["pred"]) == len(data) == len(res["conf"]), "one prediction per text", lambda: "%d of %d" % (len(res["pred"]), len(data)))
    seen = set()
    for i, s in enumerate(data):
        p = part(res, i)
        ctx.check(len(p["pred"]) == len(s) == len(p["conf"]), "one label per character", lambda: "%r: %r" % (s, p["pred"]))
        for x, row in zip(p["pred"], p["conf"]):
            ctx.check(x in known and len(row) == width and abs(sum(row) - 1) < 1e-3 and min(row) >= 0, "confidences", lambda: "%r: %r" % (x, row))
            ctx.check(not sure(row) or int(np.argmax(row)) == x, "the label is the most likely", lambda: "%r: %r" % (x, row))
        seen.update(p["pred"])
    other = predict(lab, data, c["src"], c["batch"])
    for i in range(len(data)):
        agree(ctx, part(res, i), part(other, i), "source and batch size", lambda: "%r of %r: %r / %r" % (data[i], data, res["pred"][i], other["pred"][i]))
    if alone and data:
        perm = [data[i % len(data)] for i in c["perm"]]
        moved = predict(lab, perm, batch=c["batch"])
        for j, i in enumerate(c["perm"]):
            agree(ctx, part(res, i % len(data)), part(moved, j), "a text among others", lambda: "%r: %r / %r" % (perm[j], res["pred"][i % len(data)], moved["pred"][j]))
    only = quietly(lab.predict, contain(data, c["src"]), batch_size=c["batch"], verbose=False)
    ctx.check(set(only) == {"pred"}, "confidences only on request", lambda: repr(set(only)))
    for i in range(len(data)):
        ctx.check(list(only["pred"][i]) == list(other["pred"][i]), "with and without confidences", "")
    ctx.check(data == keep, "input", "changed")
    ctx.nt(len(seen) > 1 and len(data) > 1)


@PROP.sub("text", st.fixed_dictionaries({"data": TEXTS, "seed": st.integers(0, 2), "src": SRC, "batch": st.sampled_from([1, 2, 3, 7, 32]),
                                         "perm": st.lists(st.integers(0, 99), max_size=5), "kind": st.sampled_from(["text", "text", "flat"])}),
          quick=200, thorough=6000)
def run_text(c, ctx):
    judge_texts(ctx, c, labeler(c["kind"], c["seed"]), c["kind"] == "text", 5, set(range(5)))


@PROP.sub("default", st.fixed_dictionaries({"data": st.lists(st.one_of(TEXT, st.sampled_from(
    ["mail bob@example.com or call 555-123-4567", "born 12/31/1999 at 10.0.0.1", "www.example.com", "4111 1111 1111 1111", "John 123-45-6789"])),
    max_size=5), "src": SRC, "batch": st.sampled_from([1, 2, 3, 32]), "perm": st.lists(st.integers(0, 99), max_size=3)}), quick=60, thorough=600)
def run_default(c, ctx):
    lab = labeler("unstructured", 0)
    judge_texts(ctx, c, lab, True, max(lab.label_mapping.values()) + 1, set(lab.label_mapping.values()))


def judge_cells(ctx, c, lab):
    data = c["data"]
    res = predict(lab, data)
    names = lab.label_mapping
    back = lab.reverse_label_mapping
    ctx.check(len(res["pred"]) == len(data) == len(res["conf"]), "one prediction per cell", "")
    firm = []
    for s, p, row in zip(data, res["pred"], res["conf"]):
        if s == "":
            ctx.check(p is None or p != p, "empty cell", lambda: repr(p))
            firm.append(False)
            continue
        total = sum(row)
        if total == 0:  # every character is padding for the network
            ctx.check(p is None or p != p, "cell of padding", lambda: repr(p))
            firm.append(True)
            continue
        ctx.check(abs(total - 1) < 1e-6 and len(row) == max(names.values()) + 1, "shares", lambda: "%r: %r" % (s, row))
        top = {back[k] for k in range(len(row)) if row[k] >= max(row) - 1e-9 and k in back}
        ctx.check(p in top, "the label is the most frequent", lambda: "%r: %r of %r" % (s, p, row))
        ctx.check(len(top) == 1 or p != lab.postprocessor.get_parameters()["default_label"], "ties are not unknown", lambda: "%r: %r of %r" % (s, p, row))
        firm.append(len(top) == 1)
    other = predict(lab, data, c["src"], c["batch"])
    for i, s in enumerate(data):
        a, b = np.asarray(res["conf"][i]), np.asarray(other["conf"][i])
        ctx.check(np.allclose(a, b, atol=1.5 / max(1, len(s))), "source and batch size", lambda: "%r: %r / %r" % (s, a, b))
        if firm[i] and np.allclose(a, b):
            ctx.check(res["pred"][i] == other["pred"][i], "source and batch size", lambda: "%r: %r / %r" % (s, res["pred"][i], other["pred"][i]))
    ctx.nt(len(set(map(str, res["pred"]))) > 1)


@PROP.sub("cells", st.fixed_dictionaries({"data": TEXTS, "seed": st.integers(0, 2), "src": SRC, "batch": st.sampled_from([1, 2, 3, 32])}), quick=160, thorough=5000)
def run_cells(c, ctx):
    judge_cells(ctx, c, labeler("cells", c["seed"]))


@PROP.sub("columns", st.fixed_dictionaries({"data": st.one_of(st.lists(st.one_of(TEXT, st.sampled_from(
    ["bob@example.com", "555-123-4567", "12/31/1999", "10.0.0.1", "www.example.com", "4111111111111111", "123-45-6789", "US", "12.5"])), max_size=8),
    st.tuples(TEXT, st.integers(300, 700)).map(lambda t: [t[0] + str(i * 7919) for i in range(t[1])])), "src": SRC,
    "batch": st.sampled_from([1, 2, 32])}), quick=60, thorough=500)
def run_columns(c, ctx):
    judge_cells(ctx, c, labeler("structured", 0))


def clone(lab):
    """a labeler of its own whose parts may be changed"""
    with tempfile.TemporaryDirectory() as tmp:
        lab.save_to_disk(tmp)
        return dp.DataLabeler.load_from_disk(tmp)


@PROP.sub("saved", st.fixed_dictionaries({"data": st.lists(TEXT, min_size=1, max_size=6), "kind": st.sampled_from(["text", "flat", "cells", "structured", "unstructured"]),
                                          "seed": st.integers(0, 2), "how": st.sampled_from(["disk", "class", "trainable", "wrapper"]),
                                          "change": st.sampled_from(["", "pre", "post", "label"]), "twice": st.booleans()}), quick=50, thorough=400)
def run_saved(c, ctx):
    lab = clone(labeler(c["kind"], c["seed"]))
    ctx.check(lab == labeler(c["kind"], c["seed"]), "equal after loading", "")
    if c["change"] == "pre":
        lab.set_params({"preprocessor": {"is_separate_at_max_len": False}})
    elif c["change"] == "post":
        lab.set_params({"postprocessor": {"is_pred_labels": False} if c["kind"] in ("cells", "structured") else {"output_format": "ner"}})
    elif c["change"] == "label":
        quietly(lab.add_label, "OTHER", "UNKNOWN")
    if c["change"]:
        ctx.check(lab != labeler(c["kind"], c["seed"]), "changed labelers differ", lambda: c["change"])
    with tempfile.TemporaryDirectory() as tmp:
        lab.save_to_disk(tmp)
        if c["twice"]:
            lab.save_to_disk(tmp)
        typ = "structured" if c["kind"] in ("cells", "structured") else "unstructured"
        got = {"disk": lambda: dp.DataLabeler.load_from_disk(tmp), "class": lambda: BaseDataLabeler.load_from_disk(tmp),
               "trainable": lambda: dp.DataLabeler.load_from_disk(tmp, trainable=True),
               "wrapper": lambda: dp.DataLabeler(labeler_type=typ, dirpath=tmp)}[c["how"]]()
    ctx.check(isinstance(got, TrainableDataLabeler) == (c["how"] == "trainable"), "kind of labeler", "")
    ctx.check(got == lab and lab == got, "equal after loading", lambda: c["change"])
    ctx.check(got.label_mapping == lab.label_mapping and got.labels == lab.labels, "labels", "")
    a, b = predict(lab, c["data"]), predict(got, c["data"])
    same = all(repr(x) == repr(y) for x, y in zip(a["pred"], b["pred"]))
    ctx.check(same and len(a["pred"]) == len(b["pred"]), "predictions", lambda: "%r / %r" % (a["pred"], b["pred"]))
    ctx.check(all(np.allclose(x, y, atol=1e-5) for x, y in zip(a["conf"], b["conf"])), "confidences", "")
    ctx.nt(c["change"])


NAMES = ["A", "B", "C", "D", "E"]
STEP = st.one_of(st.tuples(st.just("add"), st.sampled_from(NAMES), st.sampled_from([None, None, "UNKNOWN", "A", "B", "PAD", "Z"])),
                 st.tuples(st.just("list"), st.lists(st.sampled_from(NAMES), unique=True, max_size=4), st.booleans()),
                 st.tuples(st.just("dict"), st.dictionaries(st.sampled_from(NAMES), st.integers(1, 6), max_size=4), st.integers(1, 6)),
                 st.tuples(st.just("predict"), st.just(""), st.just("")), st.tuples(st.just("fit"), st.just(""), st.just("")),
                 st.tuples(st.just("save"), st.just(""), st.just("")))


@PROP.sub("labels", st.fixed_dictionaries({"steps": st.lists(STEP, min_size=2, max_size=7), "seed": st.integers(0, 2)}), quick=48, thorough=600)
def run_labels(c, ctx):
    """a history of label changes; the model predicts only with the labels it was trained for"""
    lab = dp.DataLabeler.load_with_components(proc.CharPreprocessor(max_length=SIZE), network(c["seed"]), proc.CharPostprocessor(), trainable=True)
    want = dict(MAPPING)
    trained = (max(want.values()) + 1, want["UNKNOWN"])
    changes = 0
    for kind, x, y in c["steps"]:
        if kind == "add":
            if y and y not in want:
                if x in want:
                    quietly(lab.add_label, x, y)
                    continue
                try:
                    quietly(lab.add_label, x, y)
                except ValueError:
                    pass
                else:
                    ctx.fail("unknown label", "add_label(%r, %r) is accepted" % (x, y))
            else:
                quietly(lab.add_label, x, y)
                if x not in want:
                    want[x] = want[y] if y else max(want.values()) + 1
                    changes += 1
        elif kind == "list":
            names = (["PAD"] if y else []) + ["UNKNOWN"] + list(x)
            lab.set_labels(list(names))
            want = {n: i for i, n in enumerate(names if y else ["PAD"] + names)}
            changes += 1
        elif kind == "dict":
            m = dict(x)
            m["UNKNOWN"] = y
            lab.set_labels(dict(m))
            want = dict(m, PAD=0)
            changes += 1
        elif kind == "predict":
            now = (max(want.values()) + 1, want["UNKNOWN"])
            try:
                res = predict(lab, ["ab1", "", "xyz 12"])
            except RuntimeError:
                ctx.check(now != trained, "predicts", "with the labels it was trained for: error")
            else:
                ctx.check(now == trained, "predicts only what it was trained for", lambda: "%r, trained for %r" % (want, trained))
                ctx.check([len(p) for p in res["pred"]] == [3, 0, 6], "predictions", "")
                ctx.check(len(res["conf"][0][0]) == now[0], "confidences", "")
        elif kind == "fit":
            quietly(lab.fit, ["ab1", "xyz", "c"], [[(0, 1, "UNKNOWN")], [], []], validation_split=0)
            trained = (max(want.values()) + 1, want["UNKNOWN"])
        else:
            with tempfile.TemporaryDirectory() as tmp:
                lab.save_to_disk(tmp)
                lab = dp.DataLabeler.load_from_disk(tmp, trainable=True)
            trained = (max(want.values()) + 1, want["UNKNOWN"])
        ctx.check(lab.label_mapping == want, "label mapping", lambda: "%r, expected %r after %r" % (lab.label_mapping, want, (kind, x, y)))
        ctx.check(lab.reverse_label_mapping == {v: k for k, v in want.items()}, "reverse mapping", "")
        names = lab.labels
        ctx.check(len(names) == len(set(want.values())) and [want[n] for n in names] == sorted(set(want.values())), "labels in order", lambda: repr(names))
        ctx.check(lab.model.num_labels == max(want.values()) + 1, "number of labels", lambda: repr(lab.model.num_labels))
        lab.label_mapping["HACK"] = 99
        ctx.check("HACK" not in lab.label_mapping, "a copy of the mapping", "")
    ctx.nt(changes > 1)


class Recorder(BaseTrainableModel):
    requires_zero_mapping = True

    def __init__(self, label_mapping, parameters=None):
        super().__init__(label_mapping, parameters or {})
        self.epochs = []

    def _validate_parameters(self, parameters):
        pass

    def _need_to_reconstruct_model(self):
        return False

    def _construct_model(self):
        pass

    def _reconstruct_model(self):
        pass

    def reset_weights(self):
        self.epochs.append("reset")

    def predict(self, data, batch_size=32, show_confidences=False, verbose=True):
        return {"pred": []}

    @classmethod
    def load_from_disk(cls, dirpath):
        raise NotImplementedError

    def save_to_disk(self, dirpath):
        raise NotImplementedError

    def fit(self, train_data, val_data=None, batch_size=None, epochs=None, label_mapping=None, reset_weights=False, verbose=True):
        def rows(d):
            return None if d is None else [(str(x[0]), [int(k) for k in y.argmax(axis=1)][: len(x[0])]) for xs, ys in d for x, y in zip(xs, ys)]
        self.epochs.append((rows(train_data), rows(val_data)))
        return len(self.epochs)


@PROP.sub("fit", st.fixed_dictionaries({"n": st.integers(1, 40), "split": st.sampled_from([0, 0.1, 0.2, 0.5, 0.9, 0.99]), "epochs": st.integers(1, 4),
                                        "batch": st.sampled_from([1, 3, 32]), "struct": st.booleans(), "src": st.sampled_from(["list", "series", "array", "frame"]),
                                        "labels": st.sampled_from([None, "list", "dict"]), "reset": st.booleans(), "marks": st.lists(st.integers(0, 3), min_size=40, max_size=40)}),
          quick=400, thorough=4000)
def run_fit(c, ctx):
    """every pass over the data sees every training text with its own labels, and never a text kept for validation"""
    names = ["UNKNOWN", "A", "B", "C"]
    data = [chr(0x4E00 + i) * (1 + i % 5) for i in range(c["n"])]
    marks = [names[k] for k in c["marks"][: c["n"]]]
    m = Recorder(["PAD"] + names)
    if c["struct"]:
        lab = dp.DataLabeler.load_with_components(proc.StructCharPreprocessor(max_length=12, flatten_separator="~~~~~~~~~~~"), m, proc.StructCharPostprocessor(), trainable=True)
        y = contain(marks, c["src"])
    else:
        lab = dp.DataLabeler.load_with_components(proc.CharPreprocessor(max_length=12), m, proc.CharPostprocessor(), trainable=True)
        spans = [[(0, len(s), k)] if i % 3 else [(0, len(s), "C"), (0, len(s), k)] for i, (s, k) in enumerate(zip(data, marks))]
        y = np.empty(len(spans), dtype=object)
        for i, s in enumerate(spans):
            y[i] = s
        if c["src"] == "series":
            y = pd.Series(spans)
        elif c["src"] == "list":
            y = spans
    x = contain(data, "array" if c["src"] == "frame" and not c["struct"] else c["src"])
    new = {None: None, "list": ["PAD", "C", "UNKNOWN", "A", "B"], "dict": {"PAD": 0, "UNKNOWN": 7, "A": 2, "B": 2, "C": 5}}[c["labels"]]
    mapping = m.label_mapping if new is None else new if isinstance(new, dict) else {k: i for i, k in enumerate(new)}
    out = quietly(lab.fit, x, y, validation_split=c["split"], labels=copy.deepcopy(new), reset_weights=c["reset"], batch_size=c["batch"], epochs=c["epochs"])
    ctx.check(lab.label_mapping == mapping, "labels", lambda: repr(lab.label_mapping))
    eps = m.epochs
    if c["reset"]:
        ctx.check(eps and eps[0] == "reset", "weights are reset first", "")
        eps = eps[1:]
    ctx.check(len(out) == c["epochs"] == len(eps), "epochs", lambda: "%d of %d" % (len(eps), c["epochs"]))
    own = {s: [mapping[k]] * len(s) for s, k in zip(data, marks)}
    size = max(1, int(c["n"] * (1 - c["split"])))
    first = None
    for train, val in eps:
        val = val or []
        for s, k in train + val:
            ctx.check(s in own and k == own[s], "labels of a text", lambda: "%r: %r, given %r" % (s, k, own.get(s)))
        a, b = sorted(s for s, _ in train), sorted(s for s, _ in val)
        ctx.check(len(a) == size and len(set(a)) == size, "training texts", lambda: "%d of %d, %d expected" % (len(set(a)), len(a), size))
        ctx.check(not set(a) & set(b), "training and validation", "overlap")
        if c["split"] and size > 1:
            ctx.check(sorted(a + b) == sorted(data), "all texts are used", lambda: "%d + %d of %d" % (len(a), len(b), c["n"]))
        else:
            ctx.check(not b, "no validation", lambda: repr(b))
        ctx.check(first is None or first == (a, b), "the same split in every epoch", "")
        first = (a, b)
    ctx.nt(c["epochs"] > 1 and c["n"] > 3 and len(set(marks)) > 1)


@PROP.sub("pipeline", st.fixed_dictionaries({"params": st.lists(st.tuples(st.sampled_from(["preprocessor", "model", "postprocessor"]), st.sampled_from(
    ["max_length", "default_label", "pad_label", "flatten_separator", "nonsense"]), st.integers(0, 1)), max_size=5), "strict": st.booleans()}),
    quick=250, thorough=2000)
def run_pipeline(c, ctx):
    """parts which disagree on a shared parameter are reported, others not; refused parameters change nothing"""
    m = Recorder(["PAD", "UNKNOWN", "A"], {"default_label": "UNKNOWN", "pad_label": "PAD", "max_length": 12})
    lab = dp.DataLabeler.load_with_components(proc.CharPreprocessor(max_length=12), m, proc.CharPostprocessor())
    has = {"preprocessor": {"max_length": 12, "default_label": "UNKNOWN", "pad_label": "PAD", "flatten_separator": " "},
           "model": {"max_length": 12, "default_label": "UNKNOWN", "pad_label": "PAD"},
           "postprocessor": {"default_label": "UNKNOWN", "pad_label": "PAD", "flatten_separator": " "}}
    alt = {"max_length": [12, 15], "default_label": ["UNKNOWN", "A"], "pad_label": ["PAD", "A"], "flatten_separator": [" ", "~"], "nonsense": [1, 2]}
    for where, key, k in c["params"]:
        if key in has[where]:
            quietly(lab.set_params, {where: {key: alt[key][k]}})
            has[where][key] = alt[key][k]
        elif where != "model":
            try:
                quietly(lab.set_params, {where: {"default_label": "B", key: alt[key][k]}})
            except ValueError:
                pass
            else:
                ctx.fail("refused parameter", "%s accepts %s" % (where, key))
    for where, part_ in (("preprocessor", lab.preprocessor), ("model", lab.model), ("postprocessor", lab.postprocessor)):
        got = part_.get_parameters()
        for key, v in has[where].items():
            ctx.check(got[key] == v, "parameters", lambda: "%s: %s is %r, expected %r" % (where, key, got[key], v))
    clash = [(a, b, k) for a, b in (("model", "preprocessor"), ("model", "postprocessor"), ("preprocessor", "postprocessor"))
             for k in has[a] if k in has[b] and has[a][k] != has[b][k]]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            lab.check_pipeline(error_on_mismatch=c["strict"])
            raised = False
        except RuntimeError:
            raised = True
    ctx.check(raised == bool(clash and c["strict"]), "mismatch raises", lambda: "%r: %r" % (clash, raised))
    ctx.check(any(issubclass(x.category, RuntimeWarning) for x in w) == bool(clash and not c["strict"]), "mismatch warns", lambda: repr(clash))
    ctx.nt(clash)


@PROP.sub("tf", st.fixed_dictionaries({"rows": st.lists(st.lists(st.integers(0, 49), min_size=8, max_size=8), min_size=1, max_size=9), "batch": st.integers(1, 5),
                                       "more": st.integers(0, 2), "save": st.booleans()}), quick=40, thorough=300)
def run_tf(c, ctx):
    """a network of the user's own"""
    import tensorflow as tf
    from dataprofiler.labelers.char_load_tf_model import CharLoadTFModel
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "own.keras")
        tf.keras.utils.set_random_seed(3)
        i = tf.keras.Input(shape=(8,), dtype="int64")
        x = tf.keras.layers.Embedding(50, 4, embeddings_initializer="normal")(i)
        x = tf.keras.layers.Dense(6)(x)
        o = tf.keras.layers.Dense(4, activation="softmax", name="softmax_output", kernel_initializer=tf.keras.initializers.RandomNormal(0, 30))(x)
        own = tf.keras.Model(i, o)
        own.save(path)
        rows = np.array(c["rows"])
        want = own(rows).numpy()
        m = CharLoadTFModel(path, {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3})
        batches = lambda: (rows[k: k + c["batch"]] for k in range(0, len(rows), c["batch"]))  # noqa: E731
        got = quietly(m.predict, batches(), batch_size=c["batch"], show_confidences=True)
        ctx.check(len(got["pred"]) == len(rows) and np.allclose(got["conf"], want, atol=1e-4), "confidences of the network", lambda: repr(got["conf"]))
        for p, q in zip(got["pred"], want):
            ctx.check(all(k == int(np.argmax(r)) or not sure(r) for k, r in zip(p, q)), "labels of the network", lambda: "%r / %r" % (p, q.tolist()))
        for k in range(c["more"]):
            m.add_label("D%d" % k)
        if c["more"]:
            try:
                quietly(m.predict, batches())
            except RuntimeError:
                pass
            else:
                ctx.fail("predicts only what it was trained for", "")
            quietly(m.fit, [(rows, np.eye(4 + c["more"])[rows % 4])])
            got = quietly(m.predict, batches(), show_confidences=True)
            ctx.check(np.shape(got["conf"]) == (len(rows), 8, 4 + c["more"]), "more labels", lambda: repr(np.shape(got["conf"])))
        if c["save"]:
            try:
                os.mkdir(os.path.join(tmp, "s"))
                m.save_to_disk(os.path.join(tmp, "s"))
            except ValueError as exc:
                ctx.fail("CharLoadTFModel is not saved", str(exc)[:80])
            n = CharLoadTFModel.load_from_disk(os.path.join(tmp, "s"))
            again = quietly(n.predict, batches(), show_confidences=True)
            ctx.check(np.allclose(again["conf"], got["conf"], atol=1e-5), "loaded network", "")
        ctx.nt(len(rows) > c["batch"])
