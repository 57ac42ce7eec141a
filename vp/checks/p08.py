"""Categorical statistics: exact counts, top-k, stop condition, count-min-sketch bounds."""
from collections import Counter

import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P08", "at least two categories of different frequency, over at least two batches or operands",
            ["values are strings, as every reader produces them", "count-min-sketch estimates may exceed the true count "
             "by 4 times the configured relative error"])

VAL = st.one_of(gens.cat_cell, st.sampled_from(["a", "b", "A", "1", "1.0", "01", "é", "x y", "x,y", "0", "True"]),
                st.integers(0, 40).map(lambda i: "v%d" % i))


@st.composite
def batches(draw, maxn=30):
    nb = draw(st.integers(1, 4))
    out = []
    for _ in range(nb):
        shape = draw(st.integers(0, 4))
        if shape == 0:  # many distinct values
            a = draw(st.integers(0, 30))
            out.append(["v%d" % i for i in range(a, a + draw(st.integers(1, 25)))])
        elif shape == 1:  # few values, repeated
            vs = draw(st.lists(VAL, min_size=1, max_size=4))
            out.append(vs * draw(st.integers(1, 12)))
        else:
            out.append(draw(st.lists(VAL, min_size=1, max_size=maxn)))
    return out


MERGES = st.sampled_from(["all", "mixed", "no", "tail", "no"])


def build(bs, how, mk, upd, ctx=None):
    """a profile over the batches: updates, merges of all, merge then update, update then merge"""
    if how == "no" or len(bs) < 2:
        p = mk(bs[0])
        for b in bs[1:]:
            upd(p, b)
        return p
    if how == "all":
        p = mk(bs[0])
        for b in bs[1:]:
            p = p + mk(b)
        return p
    if how == "mixed":
        p = mk(bs[0]) + mk(bs[1])
        for b in bs[2:]:
            upd(p, b)
        return p
    p = mk(bs[0])
    for b in bs[1:-1]:
        upd(p, b)
    return p + mk(bs[-1])


def judge(ctx, prof, cells, topk):
    cnt, n = Counter(cells), len(cells)
    s = prof["statistics"]
    ctx.check(s["unique_count"] == len(cnt), "unique_count", lambda: "%r of %d" % (s["unique_count"], len(cnt)))
    ctx.check(ref.close(s["unique_ratio"], len(cnt) / n, 1e-12), "unique_ratio", lambda: "%r, %d of %d" % (
        s["unique_ratio"], len(cnt), n))
    cat = len(cnt) <= 10 or len(cnt) / n <= 0.2
    ctx.check(bool(prof["categorical"]) == cat, "categorical", lambda: "%r for %d of %d distinct" % (
        prof["categorical"], len(cnt), n))
    ctx.label("categorical" if cat else "not categorical")
    if not cat:
        ctx.check(not s.get("categories") and not s.get("categorical_count"), "categories of non-categorical", "")
        return cnt
    ctx.check(sorted(s["categories"]) == sorted(cnt), "categories", lambda: "%r vs %r" % (s["categories"], cnt))
    cc = s["categorical_count"]
    want = cnt if topk is None else None
    if topk is None:
        ctx.check(dict(cc) == dict(cnt), "categorical_count", lambda: "%r vs %r" % (cc, want))
    else:
        ctx.check(len(cc) == min(topk, len(cnt)), "top_k size", lambda: "%r for top_k=%d" % (cc, topk))
        ctx.check(all(cnt.get(k) == v for k, v in cc.items()), "top_k counts", lambda: "%r vs %r" % (cc, cnt))
        floor = min(cc.values())
        ctx.check(all(v <= floor for k, v in cnt.items() if k not in cc), "top_k choice", lambda: "%r vs %r" % (cc, cnt))
    vals = list(cc.values())
    ctx.check(vals == sorted(vals, reverse=True), "descending counts", lambda: repr(cc))
    gini = sum(c / n * (1 - c / n) for c in cnt.values())
    ctx.check(ref.close(s["gini_impurity"], gini, 1e-9, 1e-12), "gini_impurity", lambda: "%r, exact %r" % (
        s["gini_impurity"], gini))
    un = 0 if n == 1 else sum((n - c) * c for c in cnt.values()) / (n * n - n)
    ctx.check(ref.close(s["unalikeability"], un, 1e-9, 1e-12), "unalikeability", lambda: "%r, exact %r" % (
        s["unalikeability"], un))
    return cnt


@PROP.sub("column", st.fixed_dictionaries({
    "bs": batches(), "how": MERGES, "topk": st.sampled_from([None, None, 1, 2, 3, 10]), "swell": util.SWELL}), quick=1600, thorough=40000)
def column(case, ctx):
    from dataprofiler.profilers import CategoricalColumn
    from dataprofiler.profilers.profiler_options import CategoricalOptions

    o = CategoricalOptions(top_k_categories=case["topk"])
    case["bs"][0] = util.swell(case["bs"][0], case.get("swell"))
    p = build(case["bs"], case["how"], lambda b: CategoricalColumn("a", o).update(pd.Series(b, dtype=object)),
              lambda p, b: p.update(pd.Series(b, dtype=object)))
    cells = [c for b in case["bs"] for c in b]
    cnt = judge(ctx, p.profile, cells, case["topk"])
    ctx.check(dict(p.categorical_counts) == dict(cnt), "categorical_counts", "")
    ctx.nt(len(set(cnt.values())) > 1 and len(case["bs"]) > 1)
    ctx.label("merge:" + case["how"] if len(case["bs"]) > 1 else "single")


@PROP.sub("profile", st.fixed_dictionaries({
    "bs": batches(15), "how": MERGES, "topk": st.sampled_from([None, None, 1, 2, 5]),
    "nulls": st.lists(st.tuples(st.integers(0, 40), gens.null_cell), max_size=4), "swell": util.SWELL}), quick=320, thorough=6000)
def whole(case, ctx):
    """the same through Profiler; nulls take no part"""
    case["bs"][0] = util.swell(case["bs"][0], case.get("swell"))
    bs = [list(b) for b in case["bs"]]
    for i, v in case["nulls"]:
        b = bs[i % len(bs)]
        b.insert(i % (len(b) + 1), v)
    o = util.options()
    if case["topk"]:
        o.set({"*.top_k_categories": case["topk"]})
    p = build(bs, case["how"], lambda b: util.profile(util.frame([b]), o),
              lambda p, b: p.update_profile(util.frame([b])))
    d = util.report(p)["data_stats"][0]
    cells = [c for b in case["bs"] for c in b]
    cnt = judge(ctx, d, cells, case["topk"])
    ctx.label("nulls" if case["nulls"] else "no nulls")
    ctx.nt(len(set(cnt.values())) > 1 and len(bs) > 1)


@PROP.sub("stop", st.fixed_dictionaries({
    "bs": st.one_of(batches(), st.lists(st.tuples(st.integers(1, 14), st.integers(0, 3)), min_size=2, max_size=4).map(
        lambda t: [["b%d-%d" % (i, j) for j in range(n)] + ["x"] * k for i, (n, k) in enumerate(t)])),
    "how": MERGES, "ratio": st.sampled_from([0.5, 0.8, 0.3, 1.0, 0.1, 0.0]),
    "max": st.sampled_from([20, 10, 5, 1, 0, 60])}), quick=800, thorough=20000)
def stop(case, ctx):
    """the stop condition ends categorical profiling exactly when it is met, and only then"""
    from dataprofiler.profilers import CategoricalColumn
    from dataprofiler.profilers.profiler_options import CategoricalOptions

    o = CategoricalOptions()
    o.stop_condition_unique_value_ratio = case["ratio"]
    o.max_sample_size_to_check_stop_condition = case["max"]

    class M:  # the model
        def __init__(self):
            self.c, self.n, self.stopped = Counter(), 0, None

        def test(self):
            r = len(self.c) / self.n
            if self.n >= case["max"] and r >= case["ratio"]:
                self.stopped = [(len(self.c), r)]

        def add(self, b):
            if not self.stopped:
                self.c.update(b)
                self.n += len(b)
                self.test()
            return self

        def __add__(self, o):
            m = M()
            if not (self.stopped or o.stopped):
                m.c, m.n = self.c + o.c, self.n + o.n
                m.test()
                return m
            m.n = max(self.n, o.n)
            m.stopped = []
            for q in (self, o):
                if q.n == m.n:
                    m.stopped += q.stopped or [(len(q.c), len(q.c) / q.n)]
            return m

    p = build(case["bs"], case["how"], lambda b: CategoricalColumn("a", o).update(pd.Series(b, dtype=object)),
              lambda p, b: p.update(pd.Series(b, dtype=object)))
    m = build(case["bs"], case["how"], lambda b: M().add(b), lambda m, b: m.add(b))
    s = p.profile
    if not m.stopped:
        judge(ctx, s, list(m.c.elements()), None)
        ctx.label("never met")
    else:
        got = (s["statistics"]["unique_count"], s["statistics"]["unique_ratio"])
        ctx.check(any(got[0] == u and ref.close(got[1], r, 1e-12) for u, r in m.stopped), "stopped statistics",
                  lambda: "%r, model %r" % (got, m.stopped))
        ctx.check(not s["categorical"], "categorical after stop", "")
        ctx.check(not s["statistics"].get("categories"), "categories after stop", "")
        ctx.label("stopped")
    ctx.nt(len(case["bs"]) > 1 and bool(m.stopped))


# few values near the threshold: heavy in one batch, light in another
FEW = st.tuples(st.lists(st.integers(0, 7), min_size=4, max_size=4), st.booleans()).map(
    lambda t: [v for v, n in zip("pqrs"[::-1 if t[1] else 1], t[0]) for _ in range(n)] or ["p"])


@PROP.sub("cms", st.fixed_dictionaries({
    "bs": st.lists(st.one_of(
        st.lists(VAL, min_size=1, max_size=40),
        st.tuples(st.lists(VAL, min_size=1, max_size=4), st.integers(1, 12), st.integers(0, 100), st.integers(0, 30)).map(
            lambda t: t[0] * t[1] + ["u%d" % i for i in range(t[2], t[2] + t[3])]), FEW, FEW, FEW), min_size=2, max_size=4).flatmap(
            lambda bs: st.sampled_from([bs, bs, bs, bs, bs[:1]])),
    "how": MERGES, "err": st.sampled_from([0.001, 0.01, 0.05]), "hh": st.sampled_from([3, 2, 5, 10, 1, 5000])}),
    quick=800, thorough=20000)
def cms(case, ctx):
    """heavy hitters are all there, never under-counted, over-counted within the sketch's error"""
    from dataprofiler.profilers import CategoricalColumn
    from dataprofiler.profilers.profiler_options import CategoricalOptions

    o = CategoricalOptions(cms=True, cms_confidence=0.999, cms_relative_error=case["err"],
                           cms_max_num_heavy_hitters=case["hh"])
    p = build(case["bs"], case["how"], lambda b: CategoricalColumn("a", o).update(pd.Series(b, dtype=object)),
              lambda p, b: p.update(pd.Series(b, dtype=object)))
    cnt = Counter(c for b in case["bs"] for c in b)
    n = sum(cnt.values())
    got = dict(p.categorical_counts)
    slack = 4 * case["err"] * n
    for k, c in cnt.items():
        if c >= n / case["hh"]:
            ctx.check(k in got, "heavy hitter missing", lambda: "%r occurs %d of %d times, max_num_heavy_hitters %d: %r" % (
                k, c, n, case["hh"], got))
    for k, e in got.items():
        ctx.check(cnt[k] <= e <= cnt[k] + slack, "estimate", lambda: "%r estimated %r, occurs %d (slack %r)" % (
            k, e, cnt[k], slack))
        ctx.check(e >= n / case["hh"] - 1e-9, "light category kept", lambda: "%r with %r of %d, max_num_heavy_hitters "
                  "%d" % (k, e, n, case["hh"]))
    s = p.profile
    ctx.check(s["statistics"]["unique_count"] == len(got), "unique_count", "")
    ctx.check(p.sample_size == n, "sample_size", lambda: "%r of %d" % (p.sample_size, n))
    ctx.label("merge:" + case["how"] if len(case["bs"]) > 1 else "single")
    ctx.nt(len(case["bs"]) > 1 and 0 < len(got) < len(cnt))
