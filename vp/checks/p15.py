"""Options: addressing, validation, presets, and independence of the analyses they switch."""
import copy
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, history, ref, util
from vp.core import Prop, Skip
from vp.sut import dp
from dataprofiler.profilers.float_column_profile import FloatColumn
from dataprofiler.profilers.int_column_profile import IntColumn
from dataprofiler.profilers.profiler_options import BaseOption
from dataprofiler.profilers.text_column_profile import TextColumn

PROP = Prop("P15", "at least one setting differs from the default and (for profiles) a column has values",
            ["leaf settings are exercised; replacing a whole option object is out of scope",
             "booleans are not used as invalid integers, NaN not as an invalid ratio"])

FIELDS = ["structured_options", "unstructured_options"]


def leaves(o, prefix=""):
    out = {}
    for k, v in vars(o).items():
        p = prefix + k
        if isinstance(v, BaseOption):
            out.update(leaves(v, p + "."))
        else:
            out[p] = v
    return out


ALL = sorted(leaves(dp.ProfilerOptions()))
SET_ONLY = [p for p in ALL if not p.endswith("data_labeler_object")]


# ------------------------------------------------------------------ addressing
@st.composite
def set_cases(draw):
    n = draw(st.integers(1, 3))
    steps = []
    for _ in range(n):
        mode = draw(st.sampled_from(["full", "full", "multi", "star", "short"]))
        path = draw(st.sampled_from(SET_ONLY))
        if mode == "multi":
            steps.append(["full", draw(st.lists(st.sampled_from(SET_ONLY), min_size=2, max_size=4, unique=True))])
        else:
            steps.append([mode, path, draw(st.integers(1, 3))])
    return {"steps": steps}


def star_matches(suffix):
    """leaf paths a '*.suffix' addresses: under every branch, the first level that has the suffix's head"""
    head = suffix.split(".")[0]
    out = []

    def walk(node_paths, prefix):
        names = {p.split(".")[0] for p in node_paths}
        if head in names:
            hit = [prefix + p for p in node_paths if p == suffix]
            out.extend(hit if hit else [None])  # the head without the rest: set() refuses
            return
        for n in names:
            sub = [p[len(n) + 1:] for p in node_paths if p.startswith(n + ".")]
            if sub:
                walk(sub, prefix + n + ".")

    walk(ALL, "")
    return out


@PROP.sub("set", set_cases(), quick=1500, thorough=40000)
def set_(case, ctx):
    o = dp.ProfilerOptions()
    want = leaves(o)
    val = 0
    for st_ in case["steps"]:
        val += 1
        mark = "value%d" % val
        if st_[0] == "full":
            paths = st_[1] if isinstance(st_[1], list) else [st_[1]]
            arg = {p: mark + str(i) for i, p in enumerate(paths)}
            o.set(dict(arg))
            want.update(arg)
        else:
            parts = st_[1].split(".")
            suffix = ".".join(parts[-min(st_[2], len(parts) - 1):])
            if st_[0] == "star":
                hit = star_matches(suffix)
                if None in hit:
                    continue
                o.set({"*." + suffix: mark})
            else:
                # a path relative to structured / unstructured options
                root, rest = st_[1].split(".", 1) if "." in st_[1] else ("", st_[1])
                if not root:
                    continue
                sub = getattr(o, root)
                sub.set({rest: mark})
                hit = [st_[1]]
            for h in hit:
                want[h] = mark
            ctx.label(st_[0])
    got = leaves(o)
    ctx.nt()
    for p in sorted(set(got) | set(want)):
        ctx.check(p in got and p in want and got[p] == want[p], "only the addressed settings change",
                  lambda: "%s: %r, expected %r after %r" % (p, got.get(p), want.get(p), case["steps"]))


# ------------------------------------------------------------------ validation
pos = st.integers(1, 500)
bad_int = st.sampled_from([0, -1, -7, 1.5, "3", [3]])
ratio = st.sampled_from([0.0, 0.25, 0.5, 1.0])
bad_ratio = st.sampled_from([-0.1, 1.0001, 2.0, "0.5"])
bad_bool = st.sampled_from([1, 0, None, "True", "no"])
METHODS = ["auto", "fd", "doane", "scott", "rice", "sturges", "sqrt"]
DOM = {}  # leaf-path suffix -> (valid, invalid)
DOM["bin_count_or_method"] = (st.one_of(st.sampled_from(METHODS), pos,
                                        st.lists(st.sampled_from(METHODS), min_size=1, max_size=3, unique=True)),
                              st.sampled_from(["nope", 0, -3, 2.5, [], ["auto", "nope"], ["auto", 3], {"auto": 1}]))
DOM["num_quantiles"] = (pos, st.one_of(bad_int, st.none()))
DOM["top_k_modes"] = (st.one_of(st.none(), pos), bad_int)
DOM["sample_ratio"] = (st.one_of(st.none(), ratio, st.sampled_from([0, 1])), st.sampled_from([-0.1, 1.0001, 2, -1, "0.5", [0.5]]))
DOM["top_k_categories"] = (st.one_of(st.none(), pos), bad_int)
DOM["cms_confidence"] = (st.one_of(st.none(), st.sampled_from([0.01, 0.25, 0.999])), st.one_of(bad_ratio, st.sampled_from([0.0, 1.0])))
DOM["cms_relative_error"] = (st.one_of(st.none(), st.sampled_from([0.01, 0.5, 1.0])), st.one_of(bad_ratio, st.just(0.0)))
DOM["correlation.columns"] = (st.one_of(st.none(), st.lists(st.sampled_from("abcd"), min_size=2, max_size=4)),
                              st.sampled_from(["ab", [], ["a"], ["a", 1], {"a": 1}, 3]))
DOM["hll.seed"] = (st.integers(0, 9), st.sampled_from(["1", 1.5, None]))
DOM["hll.register_count"] = (st.integers(1, 18), st.sampled_from([0, -1, "5", 2.5, None]))
DOM["hashing_method"] = (st.sampled_from(["full", "hll"]), st.sampled_from(["FULL", "", "md5", 3, None]))
DOM["data_labeler_dirpath"] = (st.none(), st.sampled_from([3, 2.5, ["x"]]))
DOM["max_sample_size"] = (st.one_of(st.none(), pos), bad_int)
DOM["is_case_sensitive"] = (st.booleans(), bad_bool)
DOM["stop_words"] = (st.one_of(st.none(), st.lists(st.sampled_from(["a", "the"]), max_size=2)),
                     st.sampled_from(["the", ["a", 1], 3, {"a": 1}]))
DOM["top_k_chars"] = (st.one_of(st.none(), pos), bad_int)
DOM["top_k_words"] = (st.one_of(st.none(), pos), bad_int)
DOM["structured_options.sampling_ratio"] = (st.sampled_from([0.01, 0.2, 0.99, 1.0, 1]),
                                            st.sampled_from([None, 0, 0.0, -0.5, 1.01, 2, "0.5"]))
DOM["structured_options.null_values"] = (
    st.one_of(st.none(), st.dictionaries(st.sampled_from(["-9", "x"]), st.just(0), max_size=2)),
    st.sampled_from([[], "x", {"x": "i"}, {"x": 2.5}, ["x"]]))
DOM["structured_options.column_null_values"] = (
    st.one_of(st.none(), st.just("INTKEYS")),
    st.sampled_from([[], {"0": {"x": 0}}, {"a": {"x": 0}}]))
JOINT = "structured_options.category."
BOOLS = [p for p in ALL if p.endswith("is_enabled")]


def domain(path):
    if path.endswith(".is_enabled"):
        return (st.booleans(), bad_bool)
    for k, v in DOM.items():
        if path == k or path.endswith("." + k):
            return v
    return None


JUDGED = [p for p in ALL if domain(p)]
LEFT = [p for p in ALL if not domain(p)]


@st.composite
def validate_cases(draw):
    n = draw(st.integers(1, 4))
    sets = {}
    bad = []
    all_ok = draw(st.booleans())
    for _ in range(n):
        kind = draw(st.integers(0, 5))
        if kind == 0:
            a = draw(st.sampled_from([None, 0, 10, 5000] + ([] if all_ok else [-1, "x", 1.5])))
            b = draw(st.sampled_from([None, 0.0, 0.5, 1.0] + ([] if all_ok else [-0.5, 1.5, "x"])))
            sets[JOINT + "max_sample_size_to_check_stop_condition"] = a
            sets[JOINT + "stop_condition_unique_value_ratio"] = b
            continue
        if kind == 1:
            # numeric toggles of one column type, where the dependencies are
            t = draw(st.sampled_from(["int", "float", "text"]))
            names = draw(st.lists(st.sampled_from(["sum", "variance", "skewness", "kurtosis", "histogram_and_quantiles",
                                                   "mode", "median", "median_abs_deviation", "min", "num_zeros"]),
                                  min_size=1, max_size=7, unique=True))
            for nm in names:
                sets["structured_options.%s.%s.is_enabled" % (t, nm)] = draw(st.booleans())
            continue
        p = draw(st.sampled_from(JUDGED if kind < 4 else BOOLS))
        ok, no = domain(p)
        if all_ok or draw(st.booleans()):
            sets[p] = draw(ok)
        else:
            sets[p] = draw(no)
            bad.append(p)
    return {"sets": sets, "bad": [p for p in bad], "ctor": draw(st.booleans())}


def model_errors(o, bad):
    """number of independent reasons to reject (>= this many errors are expected)"""
    n = len(bad)
    S = o.structured_options
    for t in ("int", "float", "text"):
        x = getattr(S, t)
        e = {k: bool(getattr(x, k).is_enabled) for k in
             ("sum", "variance", "skewness", "kurtosis", "median_abs_deviation", "histogram_and_quantiles", "mode", "median")}
        n += e["variance"] and not e["sum"]
        n += e["skewness"] and not (e["sum"] and e["variance"])
        n += e["kurtosis"] and not (e["sum"] and e["variance"] and e["skewness"])
        for k in ("median_abs_deviation", "mode", "median"):
            n += e[k] and not e["histogram_and_quantiles"]
        if t == "text":
            n += bool(x.num_zeros.is_enabled) + bool(x.num_negatives.is_enabled)
    c = S.category
    a, b = c.max_sample_size_to_check_stop_condition, c.stop_condition_unique_value_ratio
    n += a is not None and not (isinstance(a, int) and a >= 0)
    n += b is not None and not (isinstance(b, float) and 0 <= b <= 1)
    n += (a is None) != (b is None)
    n += (not c.is_enabled) and bool(S.chi2_homogeneity.is_enabled)
    for x in (S.int, S.float):
        n += bool(S.correlation.is_enabled) and bool(x.is_enabled) and not x.variance.is_enabled
    return int(n)


@PROP.sub("validate", validate_cases(), quick=1500, thorough=40000)
def validate(case, ctx):
    o = util.options()
    bad = []
    for p, v in case["sets"].items():
        if v == "INTKEYS":
            v = {0: {"x": 0, "y": re.IGNORECASE}}
        obj = o
        parts = p.split(".")
        for q in parts[:-1]:
            obj = getattr(obj, q)
        setattr(obj, parts[-1], v)
        if p in case["bad"]:
            bad.append(p)
    bad = sorted(set(case["bad"]) & set(case["sets"]))
    # a later draw may have replaced an invalid value by a valid one
    really = [p for p in bad if is_bad(p, case["sets"][p])]
    want = model_errors(o, really)
    before = copy.deepcopy(leaves(o))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        errs = o.validate(raise_error=False)
        ctx.check(repr(leaves(o)) == repr(before), "validate leaves the options alone", lambda: repr(case))
        ctx.nt()
        ctx.label("invalid" if want else "valid")
        if want == 0:
            ctx.check(errs is None, "valid options are accepted", lambda: "%r -> %r" % (case["sets"], errs))
            o.validate()
        else:
            ctx.check(bool(errs), "invalid options are reported", lambda: "%r (%r)" % (case["sets"], really))
            ctx.check(len(errs) >= want, "every invalid setting is reported",
                      lambda: "%r: %d errors, at least %d expected: %r" % (case["sets"], len(errs), want, errs))
            for p in really:
                leaf = p.split(".")[-1]
                words = [leaf] + (["full_hashing"] if leaf == "hashing_method" else [])
                ctx.check(any(w in e for e in errs for w in words), "the invalid setting is named", lambda: "%s: %r" % (p, errs))
            try:
                o.validate()
            except ValueError:
                pass
            else:
                ctx.fail("validate raises", repr(case["sets"]))
            if case["ctor"] and model_errors(o, [p for p in really if p.startswith("structured_options.")]):
                try:
                    dp.Profiler(util.frame([["1", "2"]]), options=o)
                except ValueError:
                    pass
                else:
                    ctx.fail("the profiler rejects invalid options", repr(case["sets"]))


def is_bad(p, v):
    """membership in the documented domain, decided independently of the generator"""
    leaf = p.split(".")[-1]
    isint = isinstance(v, int) and not isinstance(v, bool)
    if leaf == "is_enabled" or leaf == "is_case_sensitive":
        return not isinstance(v, bool)
    if leaf in ("num_quantiles",):
        return not (isint and v >= 1)
    if leaf in ("top_k_modes", "top_k_categories", "max_sample_size", "top_k_chars", "top_k_words"):
        return not (v is None or (isint and v >= 1))
    if leaf == "bin_count_or_method":
        return not (v is None or (isint and v >= 1) or v in METHODS
                    if not isinstance(v, (list, dict)) else
                    isinstance(v, list) and len(v) > 0 and all(m in METHODS for m in v))
    if leaf == "sample_ratio":
        return not (v is None or (isinstance(v, (int, float)) and 0 <= v <= 1))
    if leaf in ("cms_confidence", "cms_relative_error"):
        return not (v is None or (isinstance(v, float) and 0 < v <= (1 if leaf == "cms_relative_error" else 0.9999)))
    if leaf == "columns":
        return not (v is None or (isinstance(v, list) and len(v) > 1 and all(isinstance(x, str) for x in v)))
    if leaf == "seed":
        return not isint
    if leaf == "register_count":
        return not (isint and v > 0)
    if leaf == "hashing_method":
        return v not in ("full", "hll")
    if leaf == "data_labeler_dirpath":
        return not (v is None or isinstance(v, str))
    if leaf == "stop_words":
        return not (v is None or (isinstance(v, list) and all(isinstance(x, str) for x in v)))
    if leaf == "sampling_ratio":
        return not (isinstance(v, (int, float)) and 0 < v <= 1)
    if leaf == "null_values":
        return not (v is None or (isinstance(v, dict) and all(isinstance(k, str) and x == 0 for k, x in v.items())))
    if leaf == "column_null_values":
        return v is not None and v != "INTKEYS"
    raise KeyError(p)


# ------------------------------------------------------------------ independence of analyses
STATS = ["min", "max", "sum", "variance", "skewness", "kurtosis", "num_zeros", "num_negatives",
         "histogram_and_quantiles", "mode", "median", "median_abs_deviation"]
NEEDS = {"variance": ["sum"], "skewness": ["sum", "variance"], "kurtosis": ["sum", "variance", "skewness"],
         "mode": ["histogram_and_quantiles"], "median": ["histogram_and_quantiles"],
         "median_abs_deviation": ["histogram_and_quantiles"]}
KEYS = {"histogram_and_quantiles": ["histogram", "quantiles"], "variance": ["variance", "stddev"], "sum": ["sum", "mean"]}
CATKEYS = ["unique_count", "unique_ratio", "categories", "gini_impurity", "unalikeability", "categorical_count"]


@st.composite
def toggle_cases(draw):
    off = {}
    parts, removed = draw(st.integers(1, 2)), draw(st.booleans())
    for t in ("int", "float", "text"):
        k = draw(st.integers(0, 2))
        off[t] = draw(st.lists(st.sampled_from(STATS), max_size=4, unique=True)) if k else []
    flags = draw(st.lists(st.sampled_from(["order", "category", "chi2_homogeneity", "row_statistics",
                                           "row_statistics.unique_count", "row_statistics.null_count",
                                           "float.precision", "text.vocab", "correlation", "null_replication_metrics",
                                           "bias"]), max_size=3, unique=True))
    types = draw(st.lists(st.sampled_from(["datetime", "int", "float"]), max_size=2, unique=True)) \
        if draw(st.integers(0, 2)) == 0 else []
    cols = draw(history.table(min_rows=2, max_rows=20))
    return {"cols": cols, "off": off, "flags": flags, "types": types, "parts": parts, "removed": removed}


def closed(off):
    off = set(off)
    for _ in range(3):
        for k, need in NEEDS.items():
            if off & set(need):
                off.add(k)
    return off


def run_profile(df, o, parts):
    h = max(1, len(df) // 2)
    if parts == 2 and len(df) > 1:
        p = util.profile(df.iloc[:h], o)
        p.update_profile(df.iloc[h:])
        return p
    return util.profile(df, o)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return ref.same(a, b)


@PROP.sub("toggle", toggle_cases(), quick=600, thorough=12000)
def toggle(case, ctx):
    df = util.frame(case["cols"])
    off = {t: closed(v) for t, v in case["off"].items()}
    o = util.options()
    S = o.structured_options
    for t, names in off.items():
        for nm in names:
            getattr(getattr(S, t), nm).is_enabled = False
    on = {"order": True, "category": True, "chi2_homogeneity": True, "unique": True, "null": True, "precision": True,
          "vocab": True, "correlation": False, "nullrep": False, "bias": True}
    for f in case["flags"]:
        if f == "order":
            S.order.is_enabled = on["order"] = False
        elif f == "category":
            S.category.is_enabled = on["category"] = False
            S.chi2_homogeneity.is_enabled = on["chi2_homogeneity"] = False
        elif f == "chi2_homogeneity":
            S.chi2_homogeneity.is_enabled = on["chi2_homogeneity"] = False
        elif f == "row_statistics":
            S.row_statistics.is_enabled = on["unique"] = on["null"] = False
        elif f == "row_statistics.unique_count":
            S.row_statistics.unique_count.is_enabled = on["unique"] = False
        elif f == "row_statistics.null_count":
            S.row_statistics.null_count.is_enabled = on["null"] = False
        elif f == "float.precision":
            S.float.precision.is_enabled = on["precision"] = False
        elif f == "text.vocab":
            S.text.vocab.is_enabled = on["vocab"] = False
        elif f == "correlation":
            S.correlation.is_enabled = on["correlation"] = True
        elif f == "null_replication_metrics":
            S.null_replication_metrics.is_enabled = on["nullrep"] = True
        elif f == "bias":
            for t in ("int", "float", "text"):
                getattr(S, t).bias_correction.is_enabled = False
            on["bias"] = False
    # correlations are computed from variances
    if any("variance" in off[t] and t not in case["types"] for t in ("int", "float")):
        S.correlation.is_enabled = on["correlation"] = False
    for t in case["types"]:
        getattr(S, t).is_enabled = False
    keep = copy.deepcopy(leaves(o))
    full = util.report(run_profile(df, util.options(), case["parts"]), None)
    prof = run_profile(df, o, case["parts"])
    ctx.check(repr(leaves(o)) == repr(keep), "profiling leaves the options alone", lambda: repr(case))
    got = util.report(prof, None)
    g, f = got["global_stats"], full["global_stats"]
    ctx.nt(bool(case["flags"] or case["types"] or any(off.values())))
    for k in f:
        want = f[k]
        if k in ("row_has_null_ratio", "row_is_null_ratio") and not on["null"]:
            want = None
        elif k in ("unique_row_ratio", "duplicate_row_count") and not on["unique"]:
            want = None
        elif k == "chi2_matrix" and not on["chi2_homogeneity"]:
            want = None
        elif k == "correlation_matrix" and on["correlation"]:
            continue
        ctx.check(same(g[k], want), "global " + k, lambda: "%s: %r, expected %r (%r)" % (k, g[k], want, case))
    for i, (gc, fc) in enumerate(zip(got["data_stats"], full["data_stats"])):
        gs, fs = gc["statistics"], fc["statistics"]

        def ck(a, b, key):
            ctx.check(same(a, b), key, lambda: "column %d: %r, expected %r\n%r" % (i, a, b, case))

        for k in ("column_name", "samples"):
            ck(gc[k], fc[k], k)
        ck(gc.get("order"), fc["order"] if on["order"] else None, "order")
        ck(gc.get("categorical"), fc["categorical"] if on["category"] else None, "categorical")
        rep = {t: r for t, r in fs.get("data_type_representation", {}).items()
               if (t if t != "string" else "text") not in case["types"]}
        if not rep:
            continue
        if "max" in off["text"]:
            # 'string' or 'text' is decided by the longest value: unknown now
            rep = {("text" if t == "string" else t): r for t, r in rep.items()}
        ck(gs["data_type_representation"], rep, "data_type_representation")
        dt = next((t for t in ("datetime", "int", "float", "string", "text") if rep.get(t) == 1.0), None)
        ck(gc["data_type"], dt, "data_type")
        for k in ("sample_size", "null_count", "null_types", "null_types_index"):
            ck(gs[k], fs[k], k)
        for k in CATKEYS:
            if k in fs:
                ck(gs.get(k), fs[k] if on["category"] else None, k)
        if dt != fc["data_type"] and not (dt == "text" and fc["data_type"] == "string"):
            ctx.label("other type")
            continue
        t = "text" if dt in ("string", "text") else dt
        if t in ("int", "float", "text"):
            fresh = {"int": IntColumn, "float": FloatColumn, "text": TextColumn}[t]("x").profile
            off_keys = {k for nm in off[t] for k in KEYS.get(nm, [nm])}
            for k in fresh:
                if k in ("times", "precision", "vocab"):
                    continue
                if k in off_keys:
                    ctx.check(same(gs[k], fresh[k]), "disabled " + k, lambda: "%r, expected %r: %r" % (gs[k], fresh[k], case))
                elif not on["bias"] and k in ("variance", "stddev", "skewness", "kurtosis"):
                    continue
                else:
                    ck(gs[k], fs[k], "enabled " + k)
            if t == "float":
                ck(gs["precision"], fs["precision"] if on["precision"] else fresh["precision"], "precision")
            if t == "text":
                ck(sorted(gs["vocab"] or []), sorted(fs["vocab"]) if on["vocab"] else [], "vocab")
        elif t == "datetime":
            for k in ("min", "max", "format"):
                ck(gs[k], fs[k], k)
    if case["removed"]:
        less = util.report(prof, None, remove_disabled_flag=True)
        ck = ctx.check
        for i, (gc, lc) in enumerate(zip(got["data_stats"], less["data_stats"])):
            gs, ls = gc["statistics"], lc["statistics"]
            dt = gc["data_type"]
            t = "text" if dt in ("string", "text") else dt
            dead = {k for nm in off.get(t, ()) for k in KEYS.get(nm, [nm])}
            if t == "float" and not on["precision"]:
                dead.add("precision")
            if t == "text":
                dead |= {"num_zeros", "num_negatives"}
                if not on["vocab"]:
                    dead.add("vocab")
            ck({k for k in gs if k not in dead} == set(ls), "only disabled statistics are removed",
               lambda: "column %d (%s): missing %r, left %r" % (i, dt, sorted({k for k in gs if k not in dead} - set(ls)),
                                                               sorted(set(ls) - {k for k in gs if k not in dead})))
            for k in ls:
                ck(same(ls[k], gs[k]), "remaining statistics keep their value", lambda: k)


# ------------------------------------------------------------------ presets
@st.composite
def preset_cases(draw):
    return {"preset": draw(st.sampled_from(["complete", "data_types", "numeric_stats_disabled", "lower_memory_sketching"])),
            "cols": draw(history.table(min_rows=2, max_rows=14, kinds=["int", "float", "text", "cat"], nulls=False))}


@PROP.sub("presets", preset_cases(), quick=250, thorough=4000)
def presets(case, ctx):
    o = dp.ProfilerOptions(presets=case["preset"])
    o.set({"*.data_labeler.is_enabled": False, "multiprocess.is_enabled": False})
    df = util.frame(case["cols"])
    full = util.report(util.profile(df, util.options()), None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["preset"] == "data_types":
            S = o.structured_options
            bad = [k for k in ("int", "float", "datetime", "text", "order", "category", "correlation", "chi2_homogeneity",
                               "row_statistics", "null_replication_metrics") if getattr(S, k).is_enabled]
            ctx.check(not bad, "data_types preset", lambda: repr(bad))
        got = util.report(util.profile(df, o), None)
    ctx.nt()
    ctx.label(case["preset"])
    for gc, fc in zip(got["data_stats"], full["data_stats"]):
        gs, fs = gc["statistics"], fc["statistics"]
        if case["preset"] == "data_types":
            ctx.check(gc["data_type"] is None and "min" not in gs, "data_types preset", lambda: repr(gc))
            continue
        dt = {"string": "text"}.get(gc["data_type"], gc["data_type"]) if case["preset"] == "numeric_stats_disabled" \
            else gc["data_type"]
        ctx.check(dt in (fc["data_type"], "text" if fc["data_type"] == "string" else None), "data type", lambda: repr((gc, fc)))
        for k in ("min", "max", "sum", "variance", "median", "histogram", "kurtosis"):
            if case["preset"] == "numeric_stats_disabled":
                if gc["data_type"] in ("int", "float", "string"):
                    fresh = {"int": IntColumn, "float": FloatColumn, "string": TextColumn}[gc["data_type"]]("x").profile
                    ctx.check(same(gs[k], fresh[k]), "numeric stats disabled", lambda: "%s %r" % (k, gs[k]))
            else:
                ctx.check(same(gs[k], fs[k]), "statistics under the preset", lambda: "%s %r %r" % (k, gs[k], fs[k]))
        ctx.check(same(gs["unique_count"], fs["unique_count"]), "unique count under the preset", lambda: repr((gs, fs)))
        ctx.check(same(gc["order"], fc["order"]), "order under the preset", lambda: repr((gc, fc)))
    g, f = got["global_stats"], full["global_stats"]
    if case["preset"] == "complete":
        n = len(case["cols"])
        ctx.check(g["correlation_matrix"] is not None and g["correlation_matrix"].shape == (n, n), "complete preset", "no correlation")
    if case["preset"] in ("complete", "numeric_stats_disabled", "lower_memory_sketching"):
        for k in ("row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio"):
            tol = 2.01 / len(df) if k.startswith("unique") and case["preset"].startswith("lower") else 1e-12
            ctx.check(abs(g[k] - f[k]) <= tol, "row statistics under the preset", lambda: "%s %r %r" % (k, g[k], f[k]))


# ------------------------------------------------------------------ what is accepted can be profiled with
INT_ISH = [None, -1, 0, 1, 2, 3, 7, 1.5, 400]
RATIO_ISH = [None, 0, 1, 0.0, 1e-9, 0.05, 0.5, 0.95, 1.0, -0.1, 1.1]
SEEDS = [0, 1, -1, 99991, None]
TRY = {"cms": [True, True, False], "cms_confidence": RATIO_ISH, "cms_relative_error": [x for x in RATIO_ISH if x != 1e-9], "cms_max_num_heavy_hitters": INT_ISH,
       "max_sample_size_to_check_stop_condition": INT_ISH, "stop_condition_unique_value_ratio": RATIO_ISH, "top_k_categories": INT_ISH,
       "columns": [None, ["a", "b"], ["A", "b"], ["a", "zz"], ["b", "a"], ["a", "a"], ["d", "b"]], "num_quantiles": INT_ISH, "top_k_modes": INT_ISH,
       "bin_count_or_method": [None, -1, 0, 1, 2, 50, "auto", "rice", ["auto"], ["auto", "sqrt"], []], "sample_ratio": RATIO_ISH,
       "null_values": [None, {}, {"": 0, "x": 0}, {"1": 0}], "column_null_values": [None, "INTKEYS"], "hashing_method": ["hll", "full"],
       "register_count": [0, -1, 2, 4, 12, 18, None], "seed": SEEDS, "sampling_ratio": RATIO_ISH, "is_case_sensitive": [True, False],
       "stop_words": [None, [], ["the"]], "top_k_chars": INT_ISH, "top_k_words": INT_ISH}
TRIED = [p for p in ALL if p.split(".")[-1] in TRY and "data_labeler" not in p]
GROUPS = [[p for p in TRIED if ".cms" in p], [p for p in TRIED if "unique_count" in p], [p for p in TRIED if "stop_condition" in p],
          [p for p in TRIED if "histogram" in p or "mode" in p]]
SWITCHES = [p for p in BOOLS if "data_labeler" not in p and "multiprocess" not in p]
CRASH = {"cms_confidence": (0.0, 1.0), "cms_relative_error": (0.0,)}  # ends the process where it is not refused


@st.composite
def try_cases(draw):
    sets = {}
    kind = draw(st.integers(0, 7))
    table = draw(st.sampled_from(["mixed", "one row", "nulls", "mixed", "text"]))
    for p in draw(st.lists(st.sampled_from(GROUPS[kind] if kind < len(GROUPS) else TRIED), min_size=1, max_size=4, unique=True)):
        sets[p] = draw(st.sampled_from(TRY[p.split(".")[-1]]))
    for p in draw(st.lists(st.sampled_from(SWITCHES), max_size=3, unique=True)):
        sets[p] = draw(st.booleans())
    if kind == 7:
        # an analysis over all columns without the statistics it may need
        off = draw(st.lists(st.sampled_from(STATS), min_size=1, max_size=2))
        for t in draw(st.sampled_from([["int"], ["float"], ["int", "float"], ["int", "float", "text"]])):
            for nm in closed(off):
                sets["structured_options.%s.%s.is_enabled" % (t, nm)] = False
        for nm in draw(st.sampled_from([["correlation"], ["null_replication_metrics"], ["correlation", "null_replication_metrics"]])):
            sets["structured_options.%s.is_enabled" % nm] = True
    if kind == 0:
        sets["structured_options.category.cms"] = True
    if kind == 1:
        sets["structured_options.row_statistics.unique_count.hashing_method"] = "hll"
    return {"sets": sets, "table": table}


TABLES = {"mixed": [["1", "2", "2", "", "5", "1"], ["1.5", "2", "x", "4", "", "6.25"], ["ab", "c", "ab", "the", "nan", "d"],
                    ["2020-01-01", "2020-01-02", "", "2020-01-01", "2021-05-06", "2020-01-02"]],
          "one row": [["3"], ["2.5"], ["x"], ["2020-01-01"]], "nulls": [["", "nan"], ["", ""], ["1", "None"], ["", "x"]],
          "text": [["a", "b", "a", "c"], ["1", "1", "2", "3"], ["0.5", "1", "2.75", "1"], ["x y", "", "the", "z"]]}


@PROP.sub("accepted", try_cases(), quick=450, thorough=8000)
def accepted(case, ctx):
    """options which are accepted can be profiled with; others are refused at once"""
    o = util.options()
    for p, v in case["sets"].items():
        if v == "INTKEYS":
            v = {0: {"x": 0, "y": re.IGNORECASE}}
        obj = o
        parts = p.split(".")
        for q in parts[:-1]:
            obj = getattr(obj, q)
        setattr(obj, parts[-1], v)
    df = util.frame(TABLES[case["table"]], ["a", "b", "c", "d"])
    cat = o.structured_options.category
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        errs = o.validate(raise_error=False)
        ctx.label("refused" if errs else "accepted")
        if errs:
            mine = o.structured_options.validate(raise_error=False)
            if mine:
                try:
                    util.profile(df, o)
                except ValueError:
                    return
                ctx.fail("the profiler rejects invalid options", repr((case["sets"], errs)))
            return
        for k, values in CRASH.items():
            ctx.check(not (cat.cms and getattr(cat, k) in values), "accepted without a sketch", lambda: "%s = %r" % (k, getattr(cat, k)))
        p = util.profile(df, o)
        p.update_profile(df.iloc[::-1].reset_index(drop=True))
        q = p + p
        for x in (p, q):
            x.report()
            x.report({"output_format": "serializable", "remove_disabled_flag": True})
        p.diff(q)
        lines = pd.Series([" ".join(r) for r in zip(*TABLES[case["table"]])], dtype=object)
        t = dp.Profiler(lines, options=o, profiler_type="unstructured")
        t.update_profile(lines)
        (t + t).report()
        t.diff(t)
    ctx.nt()
