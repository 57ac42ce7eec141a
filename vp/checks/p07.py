"""Histogram-derived statistics: histogram, quantiles, median, mode, MAD, within the resolution of the histogram."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P07", "at least 3 distinct values (histogram with more than one bin in use)",
            ["resolution: the stored histogram has 1000 equal bins over [min, max] (or the number the user set); one bin "
             "width of displacement is allowed per update, two per merge, one when reading a value, plus 0.5 for "
             "integer-valued columns, whose edges are rounded"])

VALS = {
    "int": st.one_of(gens.small_int, gens.mid_int, st.integers(-10**6, 10**6)).map(str),
    "float": gens.dec_cell,
    "text": gens.text_cell,
}


@st.composite
def cases(draw):
    t = draw(st.sampled_from(["int", "float", "float", "text"]))
    small = {"t": t, "w": draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)),
             "bins": draw(st.sampled_from([None, None, None, None, 2, 7, 50, 400, "auto", "sturges",
                                           ["fd", "scott", "doane"], ["rice", "sqrt"]])),
             "nq": draw(st.sampled_from([1000, 1000, 1000, 10, 4, 3, 2])),
             "topk": draw(st.sampled_from([5, 5, 1, 3])),
             "merge": draw(st.sampled_from(["no", "no", "merge", "merge-update", "update-merge"]))}
    if t != "text" and draw(st.integers(0, 4)) == 0:
        kinds = ("ints",) if t == "int" else ("normal", "uniform", "skew", "bimodal", "lattice")
        cells = draw(gens.bulk_spec(kinds=kinds, lo=100, hi=1500))
    else:
        cells = draw(st.lists(VALS[t], min_size=1, max_size=40))
        shape = draw(st.integers(0, 5))
        if shape == 0:
            cells = cells + [cells[0]] * draw(st.integers(1, 20))  # heavy value
        elif shape == 1 and t != "text":
            cells = cells + [c[1:] if c.startswith("-") else "-" + c for c in cells]  # symmetric around 0
        elif shape == 2:
            cells = sorted(cells)
    return dict(small, cells=cells)


def options(t, case):
    from dataprofiler.profilers.profiler_options import FloatOptions, IntOptions, TextOptions

    o = {"int": IntOptions, "float": FloatOptions, "text": TextOptions}[t]()
    if case["bins"] is not None:
        o.histogram_and_quantiles.bin_count_or_method = case["bins"]
    o.histogram_and_quantiles.num_quantiles = case["nq"]
    o.mode.top_k_modes = case["topk"]
    return o


def conv_median(xs):
    n = len(xs)
    return (xs[(n - 1) // 2] + xs[n // 2]) / 2


def judge(ctx, prof, xs, updates, merges, t, case):
    xs = sorted(xs)
    n, lo, hi = len(xs), xs[0], xs[-1]
    B = case["bins"] if isinstance(case["bins"], int) else 1000
    w = (hi - lo) / B
    half = 0.0 if t == "float" else 0.5
    eps = 1e-9 * (abs(lo) + abs(hi)) + 1e-12
    D = updates * (w + half) + merges * 2 * w + eps
    a = np.array(xs)
    h = prof["histogram"]
    counts, edges = np.asarray(h["bin_counts"], dtype=float), np.asarray(h["bin_edges"], dtype=float)
    ctx.check(len(edges) == len(counts) + 1, "histogram shape", "%d edges, %d bins" % (len(edges), len(counts)))
    ctx.check(counts.sum() == n and (counts >= 0).all(), "histogram total", lambda: "%r values in the histogram of %d: "
              "%r" % (counts.sum(), n, xs[:20]))
    ctx.check((np.diff(edges) >= 0).all(), "histogram edges", lambda: "not ascending %r" % edges[:20])
    ctx.check(ref.close(edges[0], lo, 1e-12, eps) and ref.close(edges[-1], hi, 1e-12, eps), "histogram span",
              lambda: "%r..%r, data %r..%r" % (edges[0], edges[-1], lo, hi))
    if isinstance(case["bins"], int) and lo < hi:
        ctx.check(len(counts) == B, "histogram bins", lambda: "%d bins, user set %d" % (len(counts), B))
    T = D + w + half
    C = np.cumsum(counts)
    for j in range(len(counts) - 1):
        e = edges[j + 1]
        mn, mx = int((a < e - T).sum()), int((a <= e + T).sum())
        ctx.check(mn <= C[j] <= mx, "histogram counts", lambda: "%r values up to edge %r, expected between %d and %d "
                  "(%d values %r)" % (C[j], e, mn, mx, n, xs[:30]))
    T = D + w
    qs = prof["quantiles"]
    ctx.check(len(qs) == case["nq"] - 1, "quantile count", lambda: "%d of %d" % (len(qs), case["nq"] - 1))
    for i, q in enumerate(qs):
        if len(qs) > 100 and i % 37 and i not in (0, len(qs) - 1, 499):
            continue
        l, u = ref.order_interval(xs, (i + 1) / case["nq"])
        ctx.check(l - T <= q <= u + T, "quantile", lambda: "%d/%d quantile %r, exact between %r and %r +- %r (%r)" % (
            i + 1, case["nq"], q, l, u, T, xs[:30]))
    ctx.check(all(x <= y + eps for x, y in zip(qs, qs[1:])), "quantiles ascending", "")
    med = prof["median"]
    ctx.check(abs(med - conv_median(xs)) <= T, "median", lambda: "%r, exact %r +- %r for %r" % (
        med, conv_median(xs), T, xs[:30]))
    dev = sorted(abs(x - med) for x in xs)
    mad = prof["median_abs_deviation"]
    dl, du = dev[(n - 1) // 2], dev[n // 2]
    ctx.check(dl - D - 2 * w <= mad <= du + D + 2 * w, "median_abs_deviation",
              lambda: "%r, exact between %r and %r +- %r for %r" % (mad, dl, du, D + 2 * w, xs[:30]))
    modes = prof["mode"]
    ctx.check(1 <= len(modes) <= case["topk"], "mode count", lambda: repr(modes))
    vals, mult = np.unique(a, return_counts=True)
    for m in modes:
        near = int((np.abs(a - m) <= T).sum())
        # an update can halve the bin of the largest value, a merge can split a bin of either operand
        ctx.check(near >= mult.max() / (2 ** updates * 4 ** merges), "mode", lambda: "mode %r has %d values within %r, but some value occurs %d times "
                  "(%r)" % (m, near, T, mult.max(), xs[:30]))
        ctx.check(lo - eps <= m <= hi + eps, "mode range", repr(m))
    ctx.nt(len(vals) >= 3)


@PROP.sub("column", cases(), quick=3200, thorough=60000)
def column(case, ctx):
    from vp.history import col_class, segments

    t = case["t"]
    cells = gens.expand(case["cells"])
    segs = [s for s in segments(cells, case["w"]) if s]
    C = col_class(t)

    def mk(segs):
        c = C("a", options(t, case))
        for s in segs:
            c.update(pd.Series(s, dtype=object))
        return c

    ups, mer = len(segs) - 1, 0
    if case["merge"] == "no" or len(segs) < 2:
        c = mk(segs)
    elif case["merge"] == "merge":
        c = mk(segs[:1])
        for s in segs[1:]:
            c = c + mk([s])
        ups, mer = 0, len(segs) - 1
        ctx.label("merge")
    elif case["merge"] == "merge-update":
        c = mk(segs[:1]) + mk(segs[1:2])
        for s in segs[2:]:
            c.update(pd.Series(s, dtype=object))
        ups, mer = len(segs) - 2, 1
        ctx.label("merge-update" if len(segs) > 2 else "merge")
    else:
        c = mk(segs[:-1]) + mk(segs[-1:])
        ups, mer = len(segs) - 2, 1
        ctx.label("update-merge")
    if case["t"] == "text":
        xs = [float(len(x)) for x in cells]
    else:
        xs = [float(x) for x in cells]
    ctx.label(t)
    ctx.label("bins:%s" % (case["bins"] if not isinstance(case["bins"], list) else "list"))
    ctx.label("%d segments" % len(segs))
    judge(ctx, c.profile, xs, ups, mer, t, case)


@PROP.sub("groups", st.fixed_dictionaries({
    "cells": st.one_of(st.lists(VALS["float"], min_size=1, max_size=30), gens.bulk_spec(lo=100, hi=800)),
    "groups": st.one_of(st.integers(1, 12), st.sampled_from([20, 100, 1000])),
    "nq": st.sampled_from([1000, 1000, 100, 12, 4, 3, 2])}), quick=350, thorough=6000)
def groups(case, ctx):
    """the report's quantiles cut the data into num_quantile_groups groups"""
    cells = gens.expand(case["cells"])
    p = util.profile(util.frame([cells]), util.set_options({
        "*.histogram_and_quantiles.num_quantiles": case["nq"]}))
    rep = p.report({"num_quantile_groups": case["groups"]})
    s = rep["data_stats"][0]
    if s["data_type"] not in ("int", "float"):
        return
    g, q = case["groups"], s["statistics"]["quantiles"]
    if g > case["nq"]:
        ctx.label("more groups than quantiles")
        g = min(4, case["nq"])
    ctx.check(sorted(q or {}) == list(range(g - 1)), "quantile keys", lambda: "%r for %d groups" % (sorted(q), g))
    xs = sorted(float(c) for c in cells)
    w = (xs[-1] - xs[0]) / 1000 + 1e-9 * (abs(xs[0]) + abs(xs[-1]))
    for i in range(g - 1):
        l, _ = ref.order_interval(xs, (i + 1) / g)
        _, u = ref.order_interval(xs, min(1, (i + 1) / g + 1 / case["nq"]))
        ctx.check(l - 2 * w <= q[i] <= u + 2 * w, "report quantile", lambda: "%d of %d: %r not in %r..%r" % (
            i + 1, g, q[i], l, u))
    ctx.nt(g > 2 and len(set(xs)) > 2)
