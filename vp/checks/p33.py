"""P33: the parts of a labeler keep the parameters they are given and refuse those they cannot use."""
import copy
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import sut  # noqa: F401
from vp.core import Prop
from dataprofiler.labelers import data_processing as dpr
from dataprofiler.labelers.character_level_cnn_model import CharacterLevelCnnModel
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.regex_model import RegexModel

PROP = Prop("P33", "at least one parameter is changed and at least one call is refused",
            ["only values which the documentation of a parameter clearly allows or clearly excludes are generated; a random state is "
             "compared by its state"])

LABELS = {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3}
word = st.text("abCD_ é", max_size=5)
frac = st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5]), st.floats(0, 1))
# parameters: strategy of what it takes, list of what it cannot take
BAD_FRAC = [-0.1, 1.1, 2, -1, "nan", "0.5", None]
STR = (word, [5, None, ["a"], 1.5])
BOOL = (st.booleans(), ["yes", None, 2, [True]])
COUNT = (st.one_of(st.integers(1, 6), st.integers(1, 5000)), [0, -1, "5", 2.5, None, [3]])
FRAC = (frac, BAD_FRAC)
SEED = (st.integers(0, 99).map(lambda n: {"seed": n}), ["a", {"x": 1}, [1, 2]])
SEPS = (st.lists(st.sampled_from([" ", ",", ";", "--", "\n"]), max_size=4), [" ", [1], [" ", None], None, 5])
CHARS = (st.dictionaries(st.sampled_from("abcdé1"), st.integers(0, 99), max_size=4), [5, ["a"], "a", None, {"a": "x"}, {"a": 1, "b": 1.5}])
CHAR_PRE = {"max_length": COUNT, "default_label": STR, "pad_label": STR, "flatten_separator": STR, "is_separate_at_max_len": BOOL}
PATTERN = st.sampled_from(["a+", r"\d{2}", "(x|y)", "", r"[\w.]+"])
ENTRY = st.fixed_dictionaries({"attribute": st.sampled_from(["ssn", "name", "x y", "a_b"]), "label": st.sampled_from(sorted(LABELS))})
SIZE = (st.integers(1, 400), [-1, "5", None, [3], -0.5])
SIZES = (st.lists(st.integers(1, 99), min_size=1, max_size=4), [[], 5, ["a"], [1, 2.5], None, "12", [3, None]])

SPECS = {
    "DirectPassPreprocessor": {},
    "ColumnNameModelPostprocessor": {},
    "CharPreprocessor": dict(CHAR_PRE, flatten_split=FRAC),
    "CharEncodedPreprocessor": dict(CHAR_PRE, flatten_split=FRAC, encoding_map=CHARS),
    "StructCharPreprocessor": CHAR_PRE,
    "CharPostprocessor": {"default_label": STR, "pad_label": STR, "flatten_separator": STR, "use_word_level_argmax": BOOL,
                          "output_format": (st.sampled_from(["character_argmax", "NER", "ner", "Character_Argmax"]), ["x", "", 5, None]),
                          "separators": SEPS, "word_level_min_percent": FRAC},
    "StructCharPostprocessor": {"default_label": STR, "pad_label": STR, "flatten_separator": STR, "is_pred_labels": BOOL,
                                "random_state": SEED},
    "RegexPostProcessor": {"aggregation_func": (st.sampled_from(["split", "random", "Random", "SPLIT"]), ["x", "", 5, None]),
                           "priority_order": (st.one_of(st.none(), st.lists(st.integers(0, 5), max_size=4, unique=True)), ["x", 5, {"a": 1}]),
                           "random_state": SEED},
    "StructRegexPostProcessor": {"random_state": SEED},
    "RegexModel": {
        "regex_patterns": (st.dictionaries(st.sampled_from(sorted(LABELS)), st.lists(PATTERN, max_size=3), max_size=3),
                           [5, ["a"], None, {"A": "a"}, {"Z": ["a"]}, {"A": ["("]}, {"A": [5]}, {"A": ["a"], "B": ["a", "[", "b"]}, {"B": None},
                            {"A": ["a"], "Z": []}]),
        "encapsulators": (st.fixed_dictionaries({"start": PATTERN, "end": PATTERN}), [5, None, {}, {"start": "a"}, {"end": "a"}, ["start", "end"]]),
        "ignore_case": BOOL, "default_label": STR},
    "ColumnNameModel": {
        "true_positive_dict": (st.lists(ENTRY, min_size=1, max_size=3),
                               [5, None, {}, [], ["a"], [{"attribute": "a"}], [{"label": "A"}], [{"attribute": "a", "label": "Z"}],
                                [{"attribute": "a", "label": "A"}, {"attribute": "a", "label": "Z"}], [{"attribute": "a", "label": "A"}, 5],
                                [{"attribute": "a", "label": "A"}, {"label": "A"}]]),
        "false_positive_dict": (st.one_of(st.none(), st.lists(ENTRY, min_size=1, max_size=3)), [5, {}, "a", [{"label": "A"}]]),
        "include_label": BOOL,
        "negative_threshold_config": (st.integers(0, 100), ["a", [5]]),
        "positive_threshold_config": (st.integers(0, 100), ["a", None, [5]])},
    "CharacterLevelCnnModel": {"max_length": SIZE, "max_char_encoding_id": SIZE, "dim_embed": SIZE, "size_conv": SIZE,
                               "dropout": (frac, BAD_FRAC[:4] + ["0.5", None]), "size_fc": SIZES, "num_fil": SIZES,
                               "default_label": (st.sampled_from(sorted(LABELS)), STR[1])},
}
REQUIRED = {"CharEncodedPreprocessor": {"encoding_map": {"a": 1}},
            "ColumnNameModel": {"true_positive_dict": [{"attribute": "ssn", "label": "A"}], "positive_threshold_config": 85,
                                "negative_threshold_config": 50, "false_positive_dict": [{"attribute": "role", "label": "B"}]}}
MODELS = {"RegexModel": RegexModel, "ColumnNameModel": ColumnNameModel, "CharacterLevelCnnModel": CharacterLevelCnnModel}
UNKNOWN = ["nope", "maxlength", "label", "Default_label"]


@st.composite
def some_params(draw, name, bad):
    """Up to three parameters; with bad, at least one of them cannot be used."""
    spec = SPECS[name]
    out = {}
    names = draw(st.lists(st.sampled_from(sorted(spec)), max_size=3, unique=True)) if spec else []
    for n in names:
        out[n] = draw(spec[n][0])
    if bad:
        if not spec or draw(st.integers(0, 4)) == 0:
            out[draw(st.sampled_from(UNKNOWN))] = 1
        else:
            n = draw(st.sampled_from(sorted(spec)))
            out[n] = draw(st.sampled_from(spec[n][1]))
    items = draw(st.permutations(sorted(out)))
    return {n: out[n] for n in items}


@st.composite
def param_case(draw):
    name = draw(st.sampled_from(sorted(SPECS)))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["set", "set", "bad", "bad", "get", "get-bad", "edit", "build-bad", "twin"]))
        args = None
        if kind in ("set", "bad", "build-bad"):
            args = draw(some_params(name, kind != "set"))
        elif kind == "twin":
            args = draw(some_params(name, False))
        elif kind in ("get", "get-bad"):
            args = draw(st.lists(st.sampled_from(sorted(SPECS[name])), max_size=4)) if SPECS[name] else []
        ops.append([kind, args])
    return {"class": name, "init": draw(some_params(name, False)), "ops": ops, "keep": draw(st.booleans())}


def value(v):
    """The Python value for a value of a case."""
    if isinstance(v, dict) and set(v) == {"seed"}:
        return random.Random(v["seed"])
    return float("nan") if v == "nan" else copy.deepcopy(v)


def norm(v):
    if isinstance(v, random.Random):
        return ("random", v.getstate())
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def make(name, params):
    if name in MODELS:
        return MODELS[name](label_mapping=dict(LABELS), parameters=params)
    return dpr.BaseDataProcessor.get_class(name)(**params)


def params_of(obj):
    got = obj.get_parameters()
    if "regex_processor" in got:  # holds the random state of its own processor
        return {"random_state": norm(got["regex_processor"].get_parameters()["random_state"])}
    return norm(got)


def refused(ctx, call, allowed, key, what):
    try:
        call()
    except allowed:
        return
    except Exception as e:  # noqa: BLE001
        ctx.fail(key, "%s raises %s: %s" % (what, type(e).__name__, e))
    ctx.fail(key, "%s is accepted" % what)


def usable(name, state, args):
    """Whether a call may be judged: thresholds and lists of false positives depend on one another."""
    if name == "ColumnNameModel":
        cur = dict(state, **args)
        if cur.get("false_positive_dict") is None and "negative_threshold_config" in args and not isinstance(args["negative_threshold_config"], int):
            return False
    return True


@PROP.sub("params", param_case(), quick=1600, thorough=12000)
def run_params(c, ctx):
    name = c["class"]
    init = dict(copy.deepcopy(REQUIRED.get(name, {})), **c["init"])
    given = {k: value(v) for k, v in init.items()}
    seen = dict(given)
    obj = make(name, given)
    if name in ("RegexModel", "ColumnNameModel"):
        ctx.check(given == seen, "caller's parameters", lambda: "the dict of the caller became %r" % (given,))
    state = params_of(obj)
    for k, v in seen.items():
        ctx.check(state.get(k) == norm(v), "given at construction", lambda: "%s(%s=%r) has %r" % (name, k, init[k], state.get(k)))
    if name in MODELS:
        ctx.check(state["label_mapping"] == LABELS, "label mapping", lambda: repr(state["label_mapping"]))
        twin = make(name, given)
        twin_state = params_of(twin)
    changed = refusals = 0
    for kind, args in c["ops"]:
        if kind in ("set", "bad", "build-bad") and not usable(name, state, args):
            continue
        if kind == "set":
            vals = {k: value(v) for k, v in args.items()}
            obj.set_params(**vals)
            new = {k: norm(v) for k, v in vals.items()}
            changed += any(state.get(k) != v for k, v in new.items())
            state.update(new)
        elif kind == "bad":
            refused(ctx, lambda: obj.set_params(**{k: value(v) for k, v in args.items()}), ValueError, "set of bad",
                    "%s.set_params(%r)" % (name, args))
            refusals += 1
        elif kind == "build-bad":
            full = dict(copy.deepcopy(REQUIRED.get(name, {})), **args)
            if name in ("StructCharPostprocessor", "RegexPostProcessor", "StructRegexPostProcessor") and args.get("random_state") == [1, 2]:
                ctx.label("short state")
            allowed = (ValueError, TypeError) if any(k in UNKNOWN for k in args) else ValueError
            refused(ctx, lambda: make(name, {k: value(v) for k, v in full.items()}), allowed, "construction with bad", "%s(%r)" % (name, args))
            refusals += 1
        elif kind == "get":
            if name == "StructRegexPostProcessor":
                continue
            got = obj.get_parameters(list(args))
            ctx.check(norm(got) == {k: state[k] for k in args}, "parameters asked for", lambda: "%r: %r / %r" % (args, got, state))
            for v in got.values():
                if isinstance(v, (dict, list)):
                    v.clear()
            if not args:
                ctx.label("asked for nothing")
        elif kind == "get-bad":
            refused(ctx, lambda: obj.get_parameters(list(args) + ["nope"]), ValueError, "unknown parameter", "%s.get_parameters(%r)" % (name, args + ["nope"]))
            refusals += 1
        elif kind == "edit":
            got = obj.get_parameters()
            for v in got.values():
                if isinstance(v, (dict, list)):
                    v.clear()
            got.clear()
        elif name in MODELS and usable(name, twin_state, args):
            vals = {k: value(v) for k, v in args.items()}
            twin.set_params(**vals)
            twin_state.update({k: norm(v) for k, v in vals.items()})
            ctx.check(params_of(twin) == twin_state, "parameters of the other model", lambda: "%r / %r" % (params_of(twin), twin_state))
        ctx.check(params_of(obj) == state, "parameters after " + kind, lambda: "%s: %r / %r" % (args, params_of(obj), state))
    if name in MODELS:
        same = make(name, {k: v for k, v in obj.get_parameters().items() if k != "label_mapping" and (k != "pad_label" or name != "CharacterLevelCnnModel")})
    elif name != "StructRegexPostProcessor":
        same = make(name, obj.get_parameters())
    else:
        same = obj
    ctx.check(obj == same and same == obj, "equal parameters", lambda: "%s %r" % (name, state))
    other = next((n for n in ("max_length", "default_label", "include_label", "aggregation_func") if n in SPECS[name]), None)
    if other and same is not obj:
        was = state[other]
        same.set_params(**{other: {"default_label": "%s~" % was, "max_length": 7 if was != 7 else 8, "include_label": not was,
                                   "aggregation_func": "split" if str(was).lower() != "split" else "random"}[other]})
        ctx.check(not obj == same and not same == obj, "other parameters", lambda: "%s: %s differs" % (name, other))
        ctx.check(params_of(obj) == state, "parameters of the first", lambda: "%r / %r" % (params_of(obj), state))
    if c["keep"] and name != "CharacterLevelCnnModel":
        with tempfile.TemporaryDirectory() as tmp:
            obj.save_to_disk(tmp)
            ctx.check(params_of(obj) == state, "parameters after saving", lambda: "%r / %r" % (params_of(obj), state))
            back = type(obj).load_from_disk(tmp)
        ctx.check(type(back) is type(obj) and params_of(back) == state, "loaded parameters", lambda: "%r / %r" % (params_of(back), state))
        ctx.label("kept")
    ctx.label(name)
    ctx.nt(changed > 0 and refusals > 0)


@st.composite
def priority_case(draw):
    return {"order": draw(st.lists(st.integers(0, 4), min_size=1, max_size=5, unique=True)), "array": draw(st.booleans()),
            "how": draw(st.sampled_from(["build", "set", "order first"])), "then": draw(st.sampled_from(["none", "other", "keep"]))}


@PROP.sub("priority", priority_case(), quick=120, thorough=600)
def run_priority(c, ctx):
    """Aggregation by priority has an order, whichever way it is asked for."""
    order = np.array(c["order"]) if c["array"] else list(c["order"])
    cls = dpr.RegexPostProcessor
    if c["how"] == "build":
        p = cls(aggregation_func="priority", priority_order=order)
    else:
        p = cls()
        if c["how"] == "set":
            p.set_params(aggregation_func="priority", priority_order=order)
        else:
            p.set_params(priority_order=order)
            p.set_params(aggregation_func="priority")
    if c["then"] == "none":
        refused(ctx, lambda: p.set_params(priority_order=None), ValueError, "priority without order", "set_params(priority_order=None)")
        refused(ctx, lambda: cls(aggregation_func="priority"), ValueError, "priority without order", "RegexPostProcessor('priority')")
        refused(ctx, lambda: p.set_params(aggregation_func="priority", priority_order=None), ValueError, "priority without order", "set_params of both")
    got = p.get_parameters()
    ctx.check(got["aggregation_func"] == "priority" and list(got["priority_order"]) == c["order"], "priority", lambda: repr(got))
    if c["then"] == "other":
        p.set_params(aggregation_func="split", priority_order=None)
        got = p.get_parameters()
        ctx.check(got["aggregation_func"] == "split" and got["priority_order"] is None, "no longer priority", lambda: repr(got))
    elif c["then"] == "keep":
        with tempfile.TemporaryDirectory() as tmp:
            p.save_to_disk(tmp)
            q = cls.load_from_disk(tmp)
        ctx.check(q == p and list(q.get_parameters()["priority_order"]) == c["order"], "loaded priority", lambda: repr(q.get_parameters()))
    ctx.nt(len(c["order"]) > 1)


@st.composite
def labels_case(draw):
    names = st.sampled_from(["A", "B", "C", "PAD", "UNKNOWN", "x y", "é"])
    start = draw(st.one_of(st.lists(names, min_size=1, max_size=5, unique=True),
                           st.dictionaries(names, st.integers(0, 9), min_size=1, max_size=5)))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["add", "same", "bad-same", "bad-label", "set", "set", "bad-set", "edit"]))
        a = None
        if k in ("add", "same"):
            a = [draw(names), draw(names)]
        elif k == "set":
            a = draw(st.one_of(st.lists(names, min_size=1, max_size=5, unique=True), st.dictionaries(names, st.integers(0, 9), min_size=1, max_size=5)))
        elif k == "bad-set":
            a = draw(st.sampled_from([None, [], {}, "AB", 5]))
        elif k == "bad-label":
            a = draw(st.sampled_from([None, "", 5, ["A"]]))
        ops.append([k, a])
    return {"model": draw(st.sampled_from(["RegexModel", "CharacterLevelCnnModel", "ColumnNameModel"])), "start": start, "ops": ops}


@PROP.sub("labels", labels_case(), quick=500, thorough=4000)
def run_labels(c, ctx):
    """The label mapping of a model over a history of changes."""
    import warnings
    cls = MODELS[c["model"]]
    first = 0 if cls.requires_zero_mapping else 1

    cnn = c["model"] == "CharacterLevelCnnModel"

    def mapping(x):
        if cnn and "PAD" not in x:  # the model needs a label for padding, at zero
            if isinstance(x, list):
                x = ["PAD"] + x
            elif 0 not in x.values():
                x = dict(x, PAD=0)
        return dict(x) if isinstance(x, dict) else {n: i + first for i, n in enumerate(x)}

    def possible(x):
        return not cnn or ("UNKNOWN" in x and (isinstance(x, list) or mapping(x).get("PAD") == 0))

    start = copy.deepcopy(c["start"])
    if not possible(start):
        refused(ctx, lambda: cls(start, {}), ValueError, "impossible labels", "%s(%r)" % (c["model"], start))
        start = c["start"] = ["PAD", "UNKNOWN", "Q"]
    model = mapping(start)
    if c["model"] == "ColumnNameModel":
        obj = cls(start, {"true_positive_dict": [{"attribute": "a", "label": sorted(model)[0]}], "positive_threshold_config": 5})
    else:
        obj = cls(start, {})
    nt = False
    for k, a in c["ops"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == "add":
                obj.add_label(a[0])
                if a[0] not in model:
                    model[a[0]] = max(model.values()) + 1
                    nt = True
            elif k == "same":
                if a[0] in model:
                    obj.add_label(a[0], same_as=a[1])
                elif a[1] in model:
                    obj.add_label(a[0], same_as=a[1])
                    model[a[0]] = model[a[1]]
                    nt = True
                else:
                    refused(ctx, lambda: obj.add_label(a[0], same_as=a[1]), ValueError, "same as unknown", "add_label(%r, same_as=%r)" % tuple(a))
            elif k == "bad-same":
                refused(ctx, lambda: obj.add_label("new label", same_as=5), TypeError, "same_as type", "same_as=5")
            elif k == "bad-label":
                refused(ctx, lambda: obj.add_label(a), TypeError, "label type", "add_label(%r)" % (a,))
            elif k == "set" and not possible(a):
                refused(ctx, lambda: obj.set_label_mapping(a), ValueError, "impossible labels", "set_label_mapping(%r)" % (a,))
            elif k == "set":
                given = copy.deepcopy(a)
                obj.set_label_mapping(given)
                ctx.check(given == a, "given labels", lambda: repr(given))
                model = mapping(a)
                given.clear()
            elif k == "bad-set":
                refused(ctx, lambda: obj.set_label_mapping(a), (TypeError, ValueError), "bad labels", "set_label_mapping(%r)" % (a,))
            elif k == "edit":
                obj.get_parameters()["label_mapping"].clear()
                obj.get_parameters(["label_mapping"])["label_mapping"].clear()
                obj.labels.clear()
                obj.reverse_label_mapping.clear()
        ctx.check(obj.label_mapping == model, "label mapping after " + k, lambda: "%r / %r" % (obj.label_mapping, model))
        ctx.check(start == c["start"], "labels given at construction", lambda: repr(start))
        ctx.check(obj.num_labels == max(model.values()) + 1, "number of labels", lambda: "%r of %r" % (obj.num_labels, model))
        rev = obj.reverse_label_mapping
        ctx.check(sorted(rev) == sorted(set(model.values())) and all(model[v] == i for i, v in rev.items()), "reverse mapping", lambda: repr(rev))
        ctx.check(obj.labels == [rev[i] for i in sorted(rev)], "labels", lambda: repr(obj.labels))
    ctx.nt(nt)


ROUTES = {"preprocessor": "CharPreprocessor", "model": "RegexModel", "postprocessor": "RegexPostProcessor"}


@st.composite
def route_case(draw):
    parts = draw(st.lists(st.sampled_from(sorted(ROUTES)), min_size=1, max_size=3, unique=True))
    return {"set": {p: draw(some_params(ROUTES[p], False)) for p in parts}, "bad": draw(st.sampled_from(sorted(ROUTES))),
            "bad_args": {p: draw(some_params(ROUTES[p], True)) for p in sorted(ROUTES)},
            "wrong": draw(st.sampled_from([None, {}, "model", {"models": {}}, {"model": {}, "x": {}}, 5]))}


@PROP.sub("labeler", route_case(), quick=150, thorough=1200)
def run_labeler(c, ctx):
    """The parameters of a labeler reach the part they are meant for, and no other."""
    from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
    import warnings
    lab = BaseDataLabeler()
    parts = {"preprocessor": make("CharPreprocessor", {}), "model": make("RegexModel", {}), "postprocessor": make("RegexPostProcessor", {})}
    for p in parts:
        getattr(lab, "set_" + p)(parts[p])
    state = {p: params_of(parts[p]) for p in parts}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lab.set_params({p: {k: value(v) for k, v in a.items()} for p, a in c["set"].items()})
        for p, a in c["set"].items():
            state[p].update({k: norm(value(v)) for k, v in a.items()})
        ctx.check({p: params_of(parts[p]) for p in parts} == state, "routed parameters", lambda: "%r / %r" % (c["set"], {p: params_of(parts[p]) for p in parts}))
        p = c["bad"]
        refused(ctx, lambda: lab.set_params({p: {k: value(v) for k, v in c["bad_args"][p].items()}}), ValueError, "routed bad",
                "set_params(%s=%r)" % (p, c["bad_args"][p]))
        refused(ctx, lambda: lab.set_params(c["wrong"]), ValueError, "no part", "set_params(%r)" % (c["wrong"],))
    ctx.check({p: params_of(parts[p]) for p in parts} == state, "parameters after refusals", lambda: repr({p: params_of(parts[p]) for p in parts}))
    for p in parts:
        ctx.check(params_of(getattr(lab, p)) == state[p], "parts of the labeler", p)
    ctx.nt(any(a for a in c["set"].values()))
