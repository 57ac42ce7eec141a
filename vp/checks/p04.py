import copy
import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, history, ref, sut, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P04", "at least one merge, diff or save between the snapshots, on two profiles with different data",
            ["data labeler off; single process", "reports are compared without their timing fields"])

OPTS = [
    {},
    {},
    {"row_statistics.unique_count.hashing_method": "hll"},
    {"category.cms": True, "category.cms_confidence": 0.95, "category.cms_relative_error": 0.01,
     "category.cms_max_num_heavy_hitters": 50},
    {"correlation.is_enabled": True},
    {"null_replication_metrics.is_enabled": True},
    {"category.top_k_categories": 2},
    {"category.stop_condition_unique_value_ratio": 0.5, "category.max_sample_size_to_check_stop_condition": 3},
    {"*.histogram_and_quantiles.bin_count_or_method": "auto"},
    {"*.histogram_and_quantiles.bin_count_or_method": 7},
]


def snap(p):
    out = copy.deepcopy(util.strip_times(p.report()))
    for c in out["data_stats"]:
        c["statistics"]["null_types_index"] = {k: sorted(v) for k, v in c["statistics"]["null_types_index"].items()}
        for k in ("vocab", "null_types", "categories", "format"):
            if c["statistics"].get(k):
                c["statistics"][k] = sorted(c["statistics"][k])
    return out


OPS = ["report:pretty", "report:compact", "report:serializable", "report:flat", "report:none", "report:disabled",
       "diff", "diff:rev", "diff:self", "merge", "merge:rev", "merge:self", "merge+update", "merge+update:rev",
       "save:pickle", "save:json", "double-merge"]


def do(op, p, q, extra, tmp):
    """returns the merged profile for merge operations"""
    if op.startswith("report:"):
        f = op.split(":")[1]
        ro = {"output_format": None if f in ("none", "disabled") else f, "num_quantile_groups": 4}
        if f == "disabled":
            ro["remove_disabled_flag"] = True
        p.report(ro)
        return None
    if op == "diff":
        p.diff(q)
    elif op == "diff:rev":
        q.diff(p)
    elif op == "diff:self":
        p.diff(p)
    elif op == "merge":
        return p + q
    elif op == "merge:rev":
        return q + p
    elif op == "merge:self":
        return p + p
    elif op == "merge+update":
        m = p + q
        m.update_profile(extra)
        return m
    elif op == "merge+update:rev":
        m = q + p
        m.update_profile(extra)
        return m
    elif op == "double-merge":
        return (p + q) + p
    elif op.startswith("save:"):
        path = os.path.join(tmp, "x.bin")
        p.save(path, save_method=op.split(":")[1])
    return None


@PROP.sub("operands", st.fixed_dictionaries({
    "cols": history.table(min_rows=3, max_rows=14), "opt": st.integers(0, len(OPTS) - 1),
    "ops": st.lists(st.sampled_from(OPS), min_size=1, max_size=4), "cut": st.floats(0, 1, width=16)}),
    quick=420, thorough=10000)
def operands(case, ctx):
    df = util.frame(case["cols"])
    i = min(len(df) - 2, max(1, int(case["cut"] * len(df))))
    A, B, E = df.iloc[:i], df.iloc[i:-1], df.iloc[-1:]
    o1, o2 = util.set_options(OPTS[case["opt"]]), util.set_options(OPTS[case["opt"]])
    p, q = util.profile(A.copy(), o1), util.profile(B.copy(), o2)
    sp, sq = snap(p), snap(q)
    ctx.label("opt%d" % case["opt"])
    with tempfile.TemporaryDirectory() as tmp:
        for op in case["ops"]:
            if op == "save:json" and case["opt"] in (2, 3):  # sketches have no JSON form (see P17)
                op = "save:pickle"
            ctx.label(op)
            m = do(op, p, q, E, tmp)
            for name, prof, s in (("left", p, sp), ("right", q, sq)):
                now = snap(prof)
                ctx.check(ref.same(now, s), "changed:" + op, lambda: "%s operand changed by %s at %s" % (
                    name, op, ref.first_diff(now, s)))
            if m is not None:
                ctx.nt()
                # results are independent of what happens to their operands afterwards
                sm = snap(m)
                p2, q2 = util.profile(A.copy(), o1), util.profile(B.copy(), o2)
                m2 = p2 + q2
                sm2 = snap(m2)
                p2.update_profile(E)
                q2.update_profile(E)
                ctx.check(ref.same(snap(m2), sm2), "aliased:" + op, lambda: "updating the operands changed the "
                          "merged profile: %s" % ref.first_diff(snap(m2), sm2))
                ctx.check(ref.same(snap(m), sm), "aliased", "merged profile changed")
            elif not op.startswith("report"):
                ctx.nt()


@st.composite
def repeats(draw):
    """Columns of few values, each of them often: categories for certain."""
    opt = draw(st.sampled_from([3, 3, 3, 2, 0, 6, 7, 5]))
    ops = draw(st.lists(st.sampled_from([o for o in OPS if not o.startswith("report")]), min_size=1, max_size=3))
    cut, n = draw(st.floats(0, 1, width=16)), draw(st.integers(16, 48))
    pools = [["x", "y", "z", "w", ""], ["1", "2", "30", "4"], ["1.5", "2.25", "x"], ["2020-01-01", "2021-01-01"]]
    cols = []
    for _ in range(draw(st.integers(1, 2))):
        pool = draw(st.sampled_from(pools))
        # the parts share some values and not others
        lo, hi = draw(st.integers(0, len(pool) - 2)), draw(st.integers(1, len(pool) - 1))
        at = draw(st.integers(1, n - 1))
        step = draw(st.integers(1, 5))
        cols.append([pool[(i * step) % (hi + 1)] if i < at else pool[lo + (i * step) % (len(pool) - lo)] for i in range(n)])
    return {"cols": cols, "opt": opt, "ops": ops, "cut": cut}


PROP.sub("repeats", repeats(), quick=120, thorough=2000)(operands)


READS = ["report:pretty", "report:serializable", "report:flat", "report:none", "report:disabled", "diff", "merge",
         "save:pickle"]


@PROP.sub("readers", st.fixed_dictionaries({
    "cols": history.table(min_rows=4, max_rows=14), "opt": st.integers(0, len(OPTS) - 1), "zero": st.booleans(),
    "reads": st.lists(st.lists(st.sampled_from(READS), max_size=2), min_size=3, max_size=3)}),
    quick=250, thorough=6000)
def readers(case, ctx):
    """a profile that was read (reported, compared, merged, saved) between its updates ends like one that was not"""
    df = util.frame(case["cols"])
    n = len(df)
    cuts = [df.iloc[:n // 2], df.iloc[n // 2:n - 1], df.iloc[n - 1:]]
    if case["zero"]:
        cuts = [c.reset_index(drop=True) for c in cuts]

    def mk():
        sut.reset()
        return util.profile(cuts[0].copy(), util.set_options(OPTS[case["opt"]]))

    p, q, other = mk(), mk(), mk()
    with tempfile.TemporaryDirectory() as tmp:
        for part, reads in zip(cuts[1:] + [None], case["reads"]):
            for op in reads:
                do(op, p, other, None, tmp)
                ctx.label(op)
                ctx.nt()
            if part is not None:
                sut.reset()  # equal random choices on both sides
                p.update_profile(part.copy())
                sut.reset()
                q.update_profile(part.copy())
    a, b = snap(p), snap(q)
    for x in (a, b):
        for c in x["data_stats"]:
            c.pop("samples")  # a random choice
    ctx.check(ref.same(a, b), "reading changed the profile", lambda: "%r: %s" % (case["reads"], ref.first_diff(a, b)))


def _options_view(o):
    out = {}

    def walk(x, path, depth=0):
        for k, v in sorted(vars(x).items()):
            if hasattr(v, "__dict__") and type(v).__module__.startswith("dataprofiler") and depth < 6:
                walk(v, path + "." + k, depth + 1)
            else:
                out[path + "." + k] = repr(v)

    walk(o, "o")
    return out


CELL = st.one_of(st.none(), st.integers(-5, 5), st.sampled_from(["", "a", "nan", "3", "2.5", " "]),
                 st.sampled_from([1.5, -0.0, 2.0]), st.booleans())


@PROP.sub("inputs", st.fixed_dictionaries({
    "cols": st.lists(st.lists(CELL, min_size=4, max_size=4), min_size=1, max_size=3),
    "opt": st.integers(0, len(OPTS) - 1), "kind": st.sampled_from(["frame", "frame", "list", "series"]),
    "index": st.sampled_from(["default", "reverse", "offset"]), "mts": st.sampled_from([0, 0, 2])}),
    quick=300, thorough=6000)
def inputs(case, ctx):
    """the caller's data and option objects come back exactly as they were given"""
    if case["kind"] == "list":
        data = [list(r) for r in zip(*case["cols"])]
    else:
        idx = {"default": [0, 1, 2, 3], "reverse": [3, 2, 1, 0], "offset": [10, 11, 12, 13]}[case["index"]]
        data = pd.DataFrame({"c%d" % i: pd.Series(c, dtype=object, index=idx) for i, c in enumerate(case["cols"])})
        if case["kind"] == "series":
            data = data["c0"]
    keep = copy.deepcopy(data)
    o = util.set_options(OPTS[case["opt"]])
    before = _options_view(o)
    p = dp.Profiler(data, options=o, min_true_samples=case["mts"], profiler_type="structured")
    p.update_profile(data)
    ro = {"output_format": "compact", "num_quantile_groups": 3, "omit_keys": ["data_stats.*.samples"]}
    ro_keep = copy.deepcopy(ro)
    p.report(ro)
    p.diff(p)
    (p + p).report()
    ctx.nt(len(case["cols"]) > 1 or case["kind"] == "series")
    ctx.label(case["kind"])
    if case["kind"] == "list":
        ctx.check(data == keep, "caller data changed", repr((data, keep)))
    elif case["kind"] == "series":
        pd.testing.assert_series_equal(data, keep, check_exact=True)
    else:
        pd.testing.assert_frame_equal(data, keep, check_exact=True)
    ctx.check(ro == ro_keep, "report options changed", lambda: "%r -> %r" % (ro_keep, ro))
    after = _options_view(o)
    ctx.check(before == after, "options changed", lambda: repr({k: (before.get(k), after.get(k)) for k in
                                                                set(before) | set(after)
                                                                if before.get(k) != after.get(k)}))
