"""Relations between columns: correlation, chi-squared homogeneity, null replication metrics."""
import math
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop, Skip
from vp.sut import dp

PROP = Prop("P13", "at least two numeric (or categorical) columns and two batches or operands",
            ["correlation over batches: complete numeric columns, every batch has at least 2 rows and no constant column; "
             "with nulls only the single-pass value is judged (mean imputation)",
             "null replication: integer columns with at least one value; at least one null-free column "
             "(no row of nulls)"])

NUM = {"int": st.one_of(gens.small_int.map(str), gens.mid_int.map(str)),
       "dec": st.tuples(st.integers(-5000, 5000), st.integers(0, 2)).map(gens._fmt_dec)}


@st.composite
def corr_cases(draw):
    k = draw(st.integers(2, 3))
    kinds = [draw(st.sampled_from(["int", "dec", "int", "dec", "txt"])) for _ in range(k)]
    nb = draw(st.integers(1, 4))
    small = {"how": draw(st.sampled_from(["no", "all", "mixed", "tail"])), "bias": draw(st.booleans()),
             "cols": draw(st.sampled_from([None, None, [0, 1], [1, 0]])), "reorder": draw(st.booleans()),
             "swell": draw(util.SWELL), "name": draw(st.sampled_from(["c", "C", "Sum "]))}
    bs = []
    for _ in range(nb):
        n = draw(st.integers(2, 8))
        cols = []
        for kd in kinds:
            if kd == "txt":
                cols.append(draw(st.lists(gens.cat_cell, min_size=n, max_size=n)))
            else:
                cols.append(draw(st.lists(NUM[kd], min_size=n, max_size=n)))
        if draw(st.integers(0, 2)) == 0 and kinds[0] != "txt" and kinds[1] != "txt":
            f = draw(st.sampled_from([-2, -1, 1, 3]))  # linearly related columns
            cols[1] = [gens._fmt_dec((int(round(float(x) * 100)) * f + draw(st.integers(-50, 50)), 2)) for x in cols[0]]
        bs.append(cols)
    nulls = draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, 7)), max_size=3)) if nb == 1 else []
    return dict(small, kinds=kinds, bs=bs, nulls=nulls)


def frames(bs, how, reorder, ctx, name="c"):
    out = []
    for i, cols in enumerate(bs):
        df = util.frame(cols, ["%s%d" % (name, j) for j in range(len(cols))])
        if reorder and i % 2:
            df = df[list(df.columns)[1:] + list(df.columns)[:1]]
            ctx.label("reordered")
        out.append(df)
    return out


@PROP.sub("correlation", corr_cases(), quick=450, thorough=9000)
def correlation(case, ctx):
    from vp.checks.p08 import build

    k = len(case["kinds"])
    bs = [[list(c) for c in b] for b in case["bs"]]
    bs[0] = util.swell_cols(bs[0], case.get("swell"))
    for c, r in case["nulls"]:
        if r < len(bs[0][c]) and case["kinds"][c] != "txt":
            bs[0][c][r] = "nan"
    numeric = [i for i in range(k) if case["kinds"][i] != "txt"]
    if case["cols"] is not None:
        numeric = [i for i in numeric if i in case["cols"]]
    for b in bs:
        for i in range(k):
            if case["kinds"][i] == "txt":
                continue
            live = [x for x in b[i] if x != "nan"]
            if len(live) < 2 or len(set(map(float, live))) < 2:
                raise Skip
    o = util.set_options({"correlation.is_enabled": True, "*.bias_correction.is_enabled": case["bias"],
                          "structured_options.datetime.is_enabled": False})
    if case["cols"] is not None:
        o.set({"correlation.columns": ["%s%d" % (case["name"], i) for i in case["cols"]]})
    fs = frames(bs, case["how"], case["reorder"], ctx, case["name"])
    p = build(fs, case["how"], lambda f: util.profile(f, o), lambda p, f: p.update_profile(f))
    m = p.report()["global_stats"]["correlation_matrix"]
    if len(numeric) < 2 and len(bs) > 1:
        raise Skip  # nothing to correlate
    ctx.check(m is not None and np.shape(m) == (k, k), "shape", lambda: repr(m))
    m = np.asarray(m, dtype=float)
    data = np.array([[float(x) if x != "nan" else np.nan for b in bs for x in b[i]] if i in numeric or
                     case["kinds"][i] != "txt" else [0.0] * sum(len(b[0]) for b in bs) for i in range(k)])
    if case["nulls"]:
        # rows that are null throughout the table take no part; other nulls are imputed with the mean
        allnull = np.all([[x == "nan" for x in bs[0][i]] for i in range(k)], axis=0)
        data = data[:, ~allnull]
        for i in range(k):
            row = data[i]
            row[np.isnan(row)] = np.nanmean(row)
        ctx.label("imputed")
    for i in range(k):
        for j in range(k):
            if i in numeric and j in numeric:
                want = np.corrcoef(data[i], data[j])[0, 1]
                ctx.check(ref.close(m[i, j], want, 1e-7, 1e-7), "correlation", lambda: "[%d,%d] %r, exact %r for %r" % (
                    i, j, m[i, j], want, bs))
            else:
                ctx.check(math.isnan(m[i, j]), "correlation of other columns", lambda: "[%d,%d] = %r" % (i, j, m[i, j]))
    ctx.label("batches:%d %s" % (len(bs), case["how"]))
    ctx.nt(len(numeric) > 1 and (len(bs) > 1 or bool(case["nulls"])))


@st.composite
def chi_cases(draw):
    k = draw(st.integers(2, 3))
    nb = draw(st.integers(1, 3))
    small = {"how": draw(st.sampled_from(["no", "all", "mixed", "tail"])), "reorder": draw(st.booleans()), "swell": draw(util.SWELL)}
    pool = draw(st.lists(st.sampled_from(["a", "b", "c", "d", "1", "2"]), min_size=1, max_size=4, unique=True))
    many = draw(st.sampled_from([None, None, 0, 1]))  # a column with too many categories
    bs = []
    for _ in range(nb):
        n = draw(st.integers(1, 12))
        cols = []
        void = draw(st.sampled_from([False, False, False, True]))  # a batch of nulls
        for i in range(k):
            if void:
                cols.append(["nan"] * n)
            elif i == many:
                cols.append(["u%d" % draw(st.integers(0, 60)) for _ in range(n)])
            else:
                cols.append(draw(st.lists(st.sampled_from(pool + (["nan"] if draw(st.integers(0, 3)) == 0 else [])),
                                          min_size=n, max_size=n)))
        bs.append(cols)
    return dict(small, bs=bs)


@PROP.sub("chi2", chi_cases(), quick=450, thorough=9000)
def chi2(case, ctx):
    import scipy.stats

    from vp.checks.p08 import build

    bs = case["bs"]
    bs[0] = util.swell_cols(bs[0], case.get("swell"))
    k = len(bs[0])
    o = util.options()
    fs = frames(bs, case["how"], case["reorder"], ctx)
    p = build(fs, case["how"], lambda f: util.profile(f, o), lambda p, f: p.update_profile(f))
    m = p.report()["global_stats"]["chi2_matrix"]
    cnt = [Counter(x for b in bs for x in b[i] if x != "nan") for i in range(k)]
    tot = [sum(c.values()) for c in cnt]
    ok = [len(c) <= 10 or len(c) / t <= 0.2 for c, t in zip(cnt, tot)]
    m = np.asarray(m, dtype=float)
    ctx.check(m.shape == (k, k), "shape", "")
    for i in range(k):
        for j in range(k):
            if not (ok[i] and ok[j]):
                ctx.check(math.isnan(m[i, j]), "non-categorical", lambda: "[%d,%d]=%r" % (i, j, m[i, j]))
                continue
            if i == j:
                want = 1.0
            else:
                cats = sorted(set(cnt[i]) | set(cnt[j]))
                if len(cats) <= 1:
                    want = float("nan")
                elif not tot[i] or not tot[j]:
                    want = 0.0
                else:
                    table = np.array([[cnt[i].get(c, 0) for c in cats], [cnt[j].get(c, 0) for c in cats]])
                    want = scipy.stats.chi2_contingency(table, correction=False)[1]
                    ctx.label("tested")
            ctx.check(ref.close(m[i, j], want, 1e-6, 1e-9), "chi2", lambda: "[%d,%d] %r, exact %r for %r %r" % (
                i, j, m[i, j], want, cnt[i], cnt[j]))
    ctx.nt(sum(ok) > 1 and len(bs) > 1)


@st.composite
def null_cases(draw):
    k = draw(st.integers(2, 4))
    nb = draw(st.integers(1, 4))
    small = {"how": draw(st.sampled_from(["no", "no", "all", "mixed", "tail"])), "reorder": draw(st.booleans()),
             "index": draw(st.sampled_from(["zero", "continue"])), "perm": draw(st.permutations(range(k))),
             "text": draw(st.sampled_from([None, 0, k - 1])), "corr": draw(st.booleans()), "swell": draw(util.SWELL)}
    bs = []
    for _ in range(nb):
        n = draw(st.integers(1, 7))
        cols = [draw(st.lists(NUM["int"], min_size=n, max_size=n)) for _ in range(k)]
        for i in range(k - 1):
            for r in range(n):
                if draw(st.integers(0, 3)) == 0:
                    cols[i][r] = draw(st.sampled_from(["nan", "", "None"]))
        bs.append(cols)
    for i in range(k - 1):  # a column may be empty in a batch, but not everywhere
        if all(c in ("nan", "", "None") for b in bs for c in b[i]):
            bs[draw(st.integers(0, nb - 1))][i][0] = "4"
    return dict(small, bs=bs)


@PROP.sub("null-replication", null_cases(), quick=350, thorough=7000)
def null_replication(case, ctx):
    from vp.checks.p08 import build

    bs = [[[x if x in ("nan", "", "None") or i != case["text"] else "t%s" % x for x in b[i]] for i in case["perm"]] for b in case["bs"]]
    bs[0] = util.swell_cols(bs[0], case.get("swell"))
    k = len(bs[0])
    text = case["perm"].index(case["text"]) if case["text"] is not None else None
    o = util.set_options({"correlation.is_enabled": case["corr"], "null_replication_metrics.is_enabled": True, "structured_options.datetime.is_enabled": False})
    fs, start = [], 0
    for f in frames(bs, case["how"], case["reorder"], ctx):
        if case["index"] == "continue":
            f.index = range(start, start + len(f))
            start += len(f)
        fs.append(f)
    p = build(fs, case["how"], lambda f: util.profile(f, o), lambda p, f: p.update_profile(f))
    rep = p.report()["data_stats"]
    data = [[(0.0 if i == text else float(x)) if x not in ("nan", "", "None") else None for b in bs for x in b[i]] for i in range(k)]
    n = len(data[0])
    for i in range(k):
        null = [r for r in range(n) if data[i][r] is None]
        got = rep[i].get("null_replication_metrics")
        if not null:
            ctx.check(got is None, "metrics without nulls", repr(got))
            continue
        ctx.check(got is not None, "metrics missing", "column %d" % i)
        live = [r for r in range(n) if data[i][r] is not None]
        sums = [[sum(data[j][r] or 0.0 for r in rows) for j in range(k) if j != i] for rows in (live, null)]
        prior = [len(live) / n, len(null) / n]
        mean = [[s / len(live) for s in sums[0]], [s / len(null) for s in sums[1]]]
        for key, want in (("class_prior", prior), ("class_sum", sums), ("class_mean", mean)):
            if key != "class_prior" and text is not None and text != i:
                at = text - (text > i)  # sums of texts are not judged
                ctx.check(all(len(x) == k - 1 for x in got[key]), key, lambda: "column %d: %r" % (i, got[key]))
                got[key] = [[v for q, v in enumerate(x) if q != at] for x in got[key]]
                want = [[v for q, v in enumerate(x) if q != at] for x in want]
            g, w = np.ravel(got[key]).tolist(), np.ravel(want).tolist()
            ctx.check(len(g) == len(w) and all(ref.close(a, b, 1e-9, 1e-7) for a, b in zip(g, w)), key,
                      lambda: "column %d: %r, exact %r for %r" % (i, got[key], want, bs))
        ctx.nt(len(bs) > 1)
    ctx.label("batches:%d %s" % (len(bs), case["how"]))
