"""Diff: first minus second, 'unchanged' exactly for equal statistics, tests as scipy computes them."""
import datetime
import math
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.dates import parses
from vp.history import table
from vp.sut import dp

PROP = Prop("P14", "the two profiles differ in at least one column statistic",
            ["serializable output; PSI is judged by its bounds (non-negative, zero for equal data) for numbers and exactly "
             "for categories"])

NUM = ["min", "max", "sum", "mean", "median", "variance", "stddev", "unique_count", "unique_ratio", "sample_size",
       "null_count", "gini_impurity", "unalikeability"]
GLOBAL = ["samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio",
          "duplicate_row_count"]


def num_diff(a, b):
    if a is None and b is None:
        return "unchanged"
    if a is None or b is None:
        return [a, b]
    if (a != a and b != b) or a == b:
        return "unchanged"
    return a - b


def list_diff(a, b):
    if a is None or b is None:
        return "unchanged" if a is None and b is None else [a, b]
    if sorted(map(str, a)) == sorted(map(str, b)):
        return "unchanged"
    sa, sb = set(a), set(b)
    return [sa - sb, sa & sb, sb - sa]


def eq(got, want):
    if isinstance(want, list) and len(want) == 3 and isinstance(want[0], set):
        return isinstance(got, list) and len(got) == 3 and all(
            len(g) == len(w) and set(map(str, g)) == set(map(str, w)) for g, w in zip(got, want))
    if isinstance(want, str) or isinstance(got, str):
        return got == want
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(eq(g, w) for g, w in zip(got, want))
    if want is None or got is None:
        return want is None and got is None
    return ref.close(got, want, 1e-9, 1e-12)


def prof(cols, o, updates=()):
    return util.profile(util.frame(cols), o)


def judge(ctx, d, rp, rq, cols1, cols2):
    g, gp, gq = d["global_stats"], rp["global_stats"], rq["global_stats"]
    for k in GLOBAL:
        w = num_diff(gp[k], gq[k])
        ctx.check(eq(g[k], w), "global " + k, lambda: "%r, reports %r and %r" % (g[k], gp[k], gq[k]))
    ctx.check(len(d["data_stats"]) == len(rp["data_stats"]), "columns", "")
    for i, c in enumerate(d["data_stats"]):
        a, b = rp["data_stats"][i], rq["data_stats"][i]
        s, sa, sb = c["statistics"], a["statistics"], b["statistics"]
        fam = lambda t: "text" if t in ("string", "text") else t  # noqa: E731
        ta, tb = fam(a["data_type"]), fam(b["data_type"])

        def same(k, got, want):
            ctx.check(eq(got, want), k, lambda: "column %d: %r, expected %r (%r / %r)" % (i, got, want, cols1[i], cols2[i]))

        if ta is None and tb is None:
            ctx.check(c.get("data_type") in (None, "unchanged"), "data_type", "")
        else:
            same("data_type", c["data_type"], "unchanged" if ta == tb else [ta, tb])
        same("order", c["order"], "unchanged" if a["order"] == b["order"] else [a["order"], b["order"]])
        same("categorical", c["categorical"], "unchanged" if a["categorical"] == b["categorical"]
             else [a["categorical"], b["categorical"]])
        for k in ("sample_size", "null_count", "unique_count", "unique_ratio"):
            same(k, s[k], num_diff(sa[k], sb[k]))
        same("null_ratio", s["null_ratio"], num_diff(sa["null_count"] / sa["sample_size"],
                                                     sb["null_count"] / sb["sample_size"]))
        same("null_types", s["null_types"], list_diff(sa["null_types"], sb["null_types"]))
        if a["categorical"] and b["categorical"]:
            for k in ("gini_impurity", "unalikeability"):
                same(k, s[k], num_diff(sa[k], sb[k]))
            same("categories", s["categories"], list_diff(sa["categories"], sb["categories"]))
            ca, cb = sa["categorical_count"], sb["categorical_count"]
            na, nb = sum(ca.values()), sum(cb.values())
            want = {k: num_diff(ca.get(k, 0), cb.get(k, 0)) for k in set(ca) | set(cb)}
            ctx.check((s["categorical_count"] == want) or (not want and s["categorical_count"] == "unchanged"),
                      "categorical_count", lambda: "%r, expected %r" % (s["categorical_count"], want))
            if want:
                psi = sum((cb[k] / nb - ca[k] / na) * math.log((cb[k] / nb) / (ca[k] / na))
                          for k in set(ca) & set(cb))
                same("psi", s["psi"], psi)
            chi(ctx, s["chi2-test"], ca, cb)
        if ta is not None and ta == tb:
            if ta == "datetime":
                for k in ("min", "max"):
                    x, y = parses(sa[k])[0][1], parses(sb[k])[0][1]
                    delta = x - y
                    w = "unchanged" if x == y else ("+" if x > y else "-")
                    ok = s[k] == w if x == y else (s[k][0] == w and pd.Timedelta(s[k][1:]) == abs(delta))
                    ctx.check(ok, "date " + k, lambda: "%r, exact %r" % (s[k], delta))
                same("format", s["format"], list_diff(sa["format"], sb["format"]))
                continue
            for k in ("min", "max", "sum", "mean", "median", "variance", "stddev"):
                same(k, s[k], num_diff(sa[k], sb[k]))
            same("mad", s["median_absolute_deviation"], num_diff(sa["median_abs_deviation"], sb["median_abs_deviation"]))
            same("mode", s["mode"], list_diff(sa["mode"], sb["mode"]))
            if ta == "text":
                same("vocab", s["vocab"], list_diff(sa["vocab"], sb["vocab"]))
            elif not (a["categorical"] and b["categorical"]):
                ctx.check(s["psi"] is not None and s["psi"] >= -1e-12, "psi", lambda: repr(s["psi"]))
            if ta == "float":
                for k in ("min", "max", "mean", "var", "std", "margin_of_error", "sample_size"):
                    same("precision " + k, s["precision"][k], num_diff(sa["precision"][k], sb["precision"][k]))
            xs = values(cols1[i], ta)
            ys = values(cols2[i], ta)
            ttest(ctx, s["t-test"], xs, ys)


def values(cells, t):
    live = [c for c in cells if not (c.lower() in ("", "nan", "none", "null") or not c.strip() or
                                     (len(c) > 1 and (set(c) == {"-"} or set(c) == {"_"})))]
    return [float(len(c)) if t == "text" else float(c) for c in live]


def ttest(ctx, t, xs, ys):
    import scipy.stats

    if len(xs) > 1 and len(ys) > 1 and len(set(xs)) == 1 and len(set(ys)) == 1 and not (xs[0].is_integer() and ys[0].is_integer()):
        return  # rounding decides whether the variances are 0
    if len(xs) < 2 or len(ys) < 2 or (len(set(xs)) == 1 and len(set(ys)) == 1):
        ctx.check(t["t-statistic"] is None and t["welch"]["p-value"] is None and t["conservative"]["p-value"] is None,
                  "t-test undefined", lambda: repr(t))
        return
    r = scipy.stats.ttest_ind(xs, ys, equal_var=False)
    if not math.isfinite(r.statistic) or abs(r.statistic) > 1e6:
        return
    m = max(abs(x) for x in xs + ys)
    if np.std(xs) + np.std(ys) < 1e-6 * m:
        return
    ctx.label("t-test")
    ctx.check(ref.close(t["t-statistic"], r.statistic, 1e-6, 1e-7), "t-statistic", lambda: "%r, exact %r" % (t, r))
    ctx.check(ref.close(t["welch"]["deg_of_free"], r.df, 1e-6), "welch df", lambda: "%r, exact %r" % (t, r.df))
    ctx.check(ref.close(t["welch"]["p-value"], r.pvalue, 1e-6, 1e-8), "welch p", lambda: "%r, exact %r" % (t, r))
    df = min(len(xs), len(ys)) - 1
    ctx.check(t["conservative"]["deg_of_free"] == df, "conservative df", "")
    w = 2 * scipy.stats.t(df).sf(abs(r.statistic))
    ctx.check(ref.close(t["conservative"]["p-value"], w, 1e-6, 1e-8), "conservative p", lambda: "%r, exact %r" % (t, w))


def chi(ctx, c, ca, cb):
    import scipy.stats

    cats = sorted(set(ca) | set(cb))
    if len(cats) <= 1:
        ctx.check(c["chi2-statistic"] is None and c["p-value"] is None, "chi2 undefined", repr(c))
        return
    ctx.check(c["deg_of_free"] == len(cats) - 1, "chi2 df", "")
    if not ca or not cb:
        ctx.check(c["p-value"] == 0, "chi2 empty", repr(c))
        return
    ctx.label("chi2")
    r = scipy.stats.chi2_contingency(np.array([[x.get(k, 0) for k in cats] for x in (ca, cb)]), correction=False)
    ctx.check(ref.close(c["chi2-statistic"], r[0], 1e-9, 1e-9), "chi2-statistic", lambda: "%r, exact %r" % (c, r[0]))
    ctx.check(ref.close(c["p-value"], r[1], 1e-6, 1e-9), "chi2 p", lambda: "%r, exact %r" % (c, r[1]))


@st.composite
def pairs(draw):
    kind, cut = draw(st.sampled_from(["same-kind", "edit", "other"])), draw(st.sampled_from([0, 0, 1, 3]))
    a = draw(table(min_rows=1, max_rows=12, max_cols=2))
    if kind == "edit":
        b = [list(c) for c in a]
        for _ in range(draw(st.integers(1, 3))):
            c = draw(st.integers(0, len(b) - 1))
            r = draw(st.integers(0, len(b[c]) - 1))
            b[c][r] = draw(st.sampled_from(a[c] + ["nan", "5", "x"]))
        k = draw(st.integers(1, len(b[0])))
        b = [c[:k] for c in b]
    elif kind == "same-kind":
        perm = draw(st.permutations(range(len(a[0]))))
        b = [[c[i] for i in perm] + draw(st.lists(st.sampled_from(c), max_size=6).map(list))[:0] for c in a]
        extra = draw(st.lists(st.sampled_from(perm), max_size=6))
        b = [x + [c[i] for i in extra] for x, c in zip(b, a)]
    else:
        b = draw(table(min_rows=1, max_rows=12, max_cols=2))
        k = min(len(a), len(b))
        a, b = a[:k], b[:k]
    return {"a": a, "b": b, "cut": cut, "vocab": True, "swell": draw(util.SWELL)}


def build(cols, cut, o):
    n = len(cols[0])
    if cut and cut < n:
        p = util.profile(util.frame([c[:cut] for c in cols]), o)
        p.update_profile(util.frame([c[cut:] for c in cols]))
        return p
    return util.profile(util.frame(cols), o)


OPT = {"output_format": "serializable"}


@PROP.sub("values", pairs(), quick=420, thorough=9000)
def vals(case, ctx):
    o = util.options()
    case["b"] = util.swell_cols(case["b"], case.get("swell"))
    p, q = build(case["a"], case["cut"], o), build(case["b"], 0, o)
    rp, rq = util.report(p), util.report(q)
    d = util.strip_times(p.diff(q, options=OPT))
    judge(ctx, d, rp, rq, case["a"], case["b"])
    # the other way round: everything negated or swapped
    back = util.strip_times(q.diff(p, options=OPT))
    judge(ctx, back, rq, rp, case["b"], case["a"])
    for c1, c2 in zip(d["data_stats"], back["data_stats"]):
        x, y = c1["statistics"].get("psi"), c2["statistics"].get("psi")
        ctx.check((x is None) == (y is None) and (x is None or ref.close(x, y, 1e-6, 1e-9)), "psi symmetric",
                  lambda: "%r and %r" % (x, y))
    ctx.nt(any(v != "unchanged" for c in d["data_stats"] for k, v in c["statistics"].items()
               if k not in ("chi2-test", "t-test", "categorical_count", "psi")))


STAMP = st.builds(lambda d, h, m: "2013-03-%02d %02d:%02d:00" % (d, h, m), st.integers(1, 4), st.sampled_from([0, 1, 12, 23]),
                  st.sampled_from([0, 1, 59]))


@PROP.sub("dates", st.fixed_dictionaries({"a": st.lists(STAMP, min_size=1, max_size=3),
                                          "b": st.lists(STAMP, min_size=1, max_size=3)}), quick=120, thorough=2000)
def dates(case, ctx):
    """differences of minutes, hours and days in both directions"""
    o = util.options()
    p, q = build([case["a"]], 0, o), build([case["b"]], 0, o)
    d = util.strip_times(p.diff(q, options=OPT))
    judge(ctx, d, util.report(p), util.report(q), [case["a"]], [case["b"]])
    ctx.nt(min(case["a"]) != min(case["b"]))


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (str(k),))
    else:
        yield path, o


@PROP.sub("self", st.fixed_dictionaries({"a": table(min_rows=1, max_rows=14, max_cols=3), "cut": st.sampled_from([0, 2]),
                                         "corr": st.booleans(), "copy": st.booleans()}), quick=250, thorough=5000)
def self_diff(case, ctx):
    """a profile does not differ from itself, nor from one of the same data"""
    o = util.set_options({"correlation.is_enabled": case["corr"]})
    p = build(case["a"], case["cut"], o)
    q = build(case["a"], case["cut"], o) if case["copy"] else p
    d = util.strip_times(p.diff(q, options=OPT))
    for k, v in d["global_stats"].items():
        if k == "profile_schema":
            ok = isinstance(v, list) and v[0] == {} and v[2] == {} and set(v[1].values()) <= {"unchanged"}
        elif k in ("correlation_matrix", "chi2_matrix"):
            ok = v is None or v == "unchanged"
        else:
            ok = v == "unchanged"
        ctx.check(ok, "global " + k, lambda: "%r" % (v,))
    for i, c in enumerate(d["data_stats"]):
        for path, v in leaves(c):
            if path[0] == "column_name" or "chi2-test" in path or "t-test" in path:
                continue
            if path[-1] == "psi":
                ctx.check(v is None or v == "unchanged" or abs(v) < 1e-9, "psi of itself", lambda: repr(v))
            elif path[-1] == "null_types_index":
                ctx.check(v == "unchanged" or (v[0] == {} and v[2] == {} and set(v[1].values()) <= {"unchanged"}),
                          "null_types_index", lambda: repr(v))
            else:
                ctx.check(v == "unchanged" or v is None, "self " + "/".join(path), lambda: "%r for %r" % (
                    v, case["a"][i]))
    ctx.nt(len(case["a"][0]) > 1)


@PROP.sub("schema", st.fixed_dictionaries({
    "a": st.lists(st.sampled_from("ABCD"), min_size=1, max_size=4), "b": st.lists(st.sampled_from("ABCD"), min_size=1,
                                                                                max_size=4)}), quick=150, thorough=2500)
def schema(case, ctx):
    """columns are compared only between identical schemas; the schema diff says what is where"""
    def mk(names):
        return util.profile(util.frame([["1", "2", str(i)] for i in range(len(names))], names))

    d = mk(case["a"]).diff(mk(case["b"]), options=OPT)
    pos = lambda ns: {n: [i for i, m in enumerate(ns) if m == n] for n in ns}  # noqa: E731
    a, b = pos(case["a"]), pos(case["b"])
    g = d["global_stats"]["profile_schema"]
    ctx.check(eq(d["global_stats"]["column_count"], num_diff(len(case["a"]), len(case["b"]))), "column_count", "")
    ctx.check(dict(g[0]) == {k: v for k, v in a.items() if k not in b} and
              dict(g[2]) == {k: v for k, v in b.items() if k not in a}, "schema ends", lambda: repr(g))
    ctx.check(set(g[1]) == set(a) & set(b), "schema shared", lambda: repr(g))
    for k, v in g[1].items():
        ctx.check(eq(v, list_diff(a[k], b[k])), "schema positions", lambda: "%r: %r" % (k, v))
    ctx.check(len(d["data_stats"]) == (len(case["a"]) if a == b else 0), "columns compared", lambda: "%d" % len(
        d["data_stats"]))
    ctx.nt(a != b and bool(set(a) & set(b)))
