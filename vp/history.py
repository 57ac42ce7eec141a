"""Profile histories: one data set, cut into consecutive segments, fed to the profiler as a tree of
updates and merges.  Whatever the tree, the result must describe the whole data set."""
import math

from hypothesis import strategies as st

from vp import gens, ref, util

KINDS = ["int", "int", "float", "float", "text", "cat", "date", "intfloat", "numtext", "flag", "biggish", "small", "time"]


def _cells(kind):
    if kind == "int":
        return st.one_of(gens.small_int.map(str), gens.small_int.map(str), gens.mid_int.map(str))
    if kind == "float":
        return gens.dec_cell
    if kind == "intfloat":
        return st.one_of(gens.plain_int_cell, gens.dec_cell)
    if kind == "numtext":
        return st.one_of(gens.plain_int_cell, gens.text_cell)
    if kind == "flag":
        return st.sampled_from(["0", "0", "1"])
    if kind == "small":  # small scale: spread well below one, but above the 1e-14 noise floor of the moments
        return st.tuples(st.integers(-20, 20), st.just(3)).map(gens._fmt_dec)
    if kind == "time":  # instants which differ by fractions of a second
        return st.tuples(st.sampled_from(["05:46:30", "05:46:31"]), st.sampled_from([0, 1, 258509, 258510, 258, 100000, 999999])).map(lambda t: "%s.%06d" % t)
    if kind == "biggish":
        return st.one_of(st.integers(10**8, 10**8 + 50), st.integers(-3, 3)).map(str)
    if kind == "date":
        return gens.date_cell()
    return gens.CELLS[kind]


@st.composite
def table(draw, min_rows=1, max_rows=24, max_cols=3, kinds=KINDS, nulls=True):
    n = draw(st.integers(min_rows, max_rows))
    k = draw(st.integers(1, max_cols))
    again = n > 2 and draw(st.booleans()) and [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
    cols = []
    for _ in range(k):
        kind = draw(st.sampled_from(kinds))
        cell = _cells(kind)
        block, ordered = draw(st.integers(0, 3)) == 0, draw(st.integers(0, 5)) == 0
        if nulls:
            mode = draw(st.integers(0, 3))
            if mode == 1:
                cell = st.one_of(cell, cell, cell, gens.null_cell)
            elif mode == 2:
                cell = st.one_of(cell, gens.null_cell)
        cells = draw(st.lists(cell, min_size=n, max_size=n))
        if block and n > 1:
            # a block of identical cells: constant or all-null batches
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(a, n))
            cells[a:b] = [cells[a]] * (b - a)
        if ordered:
            # sorted, so that batches are ascending / carry disjoint ranges
            cells = sorted(cells)
        cols.append(cells)
    if again:  # duplicate rows
        i, j = again
        for c in cols:
            c[j] = c[i]
    return cols


def rebuild(df, a, b, reset):
    part = df.iloc[a:b]
    return part.reset_index(drop=True) if reset else part


def compare(ctx, got, want, df, skip=(), tol=1.0, check_dtr=True):
    """got/want: reports of the history and of a one-pass profile of the same rows."""
    g, w = got["global_stats"], want["global_stats"]
    for k in ("samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio",
              "unique_row_ratio", "duplicate_row_count", "profile_schema"):
        if k in skip:
            continue
        ctx.check(ref.same(g[k], w[k]), k, lambda: "global %s: %r, one pass %r" % (k, g[k], w[k]))
    ctx.check(len(got["data_stats"]) == len(want["data_stats"]), "columns", "column count differs")
    for i, (gc, wc) in enumerate(zip(got["data_stats"], want["data_stats"])):
        compare_column(ctx, gc, wc, [str(x) for x in df.iloc[:, i]], i, skip, tol)


EXACT = ("min", "max", "num_zeros", "num_negatives", "unique_count", "unique_ratio", "sample_size", "null_count")


def numeric_values(dtype, cells):
    good = [c for c in cells if c not in gens.NULL_SAFE]
    if dtype in ("int", "float"):
        return [float(c) for c in good]
    return [float(len(c)) for c in good]


def compare_column(ctx, gc, wc, cells, i, skip=(), tol=1.0):
    gs, ws = gc["statistics"], wc["statistics"]

    def ck(cond, key, a=None, b=None):
        ctx.check(cond, key, lambda: "column %d %s: %r, one pass %r (cells %r)" % (i, key, a, b, cells[:30]))

    for k in ("column_name", "data_type", "categorical"):
        if k not in skip:
            ck(gc[k] == wc[k], k, gc[k], wc[k])
    ck(set(gs) == set(ws), "statistics keys", sorted(set(gs) ^ set(ws)), None)
    dt = wc["data_type"]
    for k in EXACT:
        if k in ws and k not in skip:
            # ties between spellings of one instant may resolve to either spelling
            tie = dt == "datetime" and k in ("min", "max") and gs[k] is not None and \
                parse_date(gs[k]) == parse_date(ws[k]) is not None
            ck(tie or ref.same(gs[k], ws[k]), k, gs[k], ws[k])
    ck(sorted(gs["null_types"]) == sorted(ws["null_types"]), "null_types", gs["null_types"], ws["null_types"])
    if "null_types_index" not in skip:
        a = {k: sorted(v) for k, v in gs["null_types_index"].items()}
        b = {k: sorted(v) for k, v in ws["null_types_index"].items()}
        ck(a == b, "null_types_index", a, b)
    if "data_type_representation" in ws and "data_type_representation" not in skip and not mixed_dates(cells):
        a, b = gs["data_type_representation"], ws["data_type_representation"]
        ck(set(a) == set(b) and all(ref.close(a[k], b[k], 1e-12) for k in a),
           "data_type_representation", a, b)
    if ws.get("vocab") is not None:
        ck(sorted(gs["vocab"]) == sorted(ws["vocab"]), "vocab", gs["vocab"], ws["vocab"])
    if ws.get("format") is not None:
        ck(sorted(gs["format"]) == sorted(ws["format"]), "format", gs["format"], ws["format"])
    if "categories" in ws and "categories" in gs:
        ck(sorted(gs["categories"]) == sorted(ws["categories"]), "categories", gs["categories"], ws["categories"])
        ck(gs["categorical_count"] == ws["categorical_count"], "categorical_count", gs["categorical_count"],
           ws["categorical_count"])
        for k in ("gini_impurity", "unalikeability"):
            ck(ref.close(gs[k], ws[k], 1e-9, 1e-12), k, gs[k], ws[k])
    if "sum" in ws and dt in ("int", "float", "string", "text"):
        xs = numeric_values(dt, cells)
        if xs:
            m = ref.moments(xs)
            ck(ref.close(gs["sum"], ws["sum"], 1e-9, 1e-12 * m["abssum"]), "sum", gs["sum"], ws["sum"])
            ck(ref.close(gs["mean"], ws["mean"], 1e-9, 1e-12 * m["absmax"]), "mean", gs["mean"], ws["mean"])
            small_const = m["constant"] and m["absmax"] < 1e6 and all(x.is_integer() for x in xs)
            # merging moments cancels more than the one-pass formula: judge only benign conditioning
            sd = math.sqrt(m["var"]) if m["var"] > 0 else 0
            if small_const or (m["cond_ok"] and m["absmax"] / sd < 1e3):
                for k, rel, ab in (("variance", 1e-6, 1e-9), ("stddev", 1e-6, 1e-6), ("skewness", 1e-5, 1e-5),
                                   ("kurtosis", 1e-5, 1e-4)):
                    if k in skip:
                        continue
                    ck(ref.close(gs[k], ws[k], rel * tol, ab * tol), k, gs[k], ws[k])
                ctx.label("moments")
    if "precision" in ws:
        a, b = gs["precision"], ws["precision"]
        ck(set(a) == set(b), "precision keys", a, b)
        for k in a:
            # derived values are rounded to 'max' significant figures: allow a rounding step
            rel = 1e-9 if k in ("min", "max", "sample_size", "confidence_level") else (
                1.01 * 10 ** (1 - max(1, int(b["max"]))) if b["max"] is not None else 1e-9)
            ck(ref.close(a[k], b[k], rel, 1e-12), "precision." + k, a[k], b[k])


def mixed_dates(cells):
    """date detection is sampled per batch with a 10%% threshold, so only all-or-none columns are comparable"""
    good = [c for c in cells if c not in gens.NULL_SAFE]
    return bool(good) and 0 < sum(looks_date(c) for c in good) < len(good)


FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%m/%d/%y %H:%M", "%m%d%Y"]


def looks_date(s):
    import datetime

    for f in FORMATS:
        try:
            datetime.datetime.strptime(s, f)
            return True
        except ValueError:
            pass
    return False


# ------------------------------------------------------------------ single-type column profilers
COLTYPES = {
    "int": st.one_of(gens.int_cell(st.one_of(gens.small_int, gens.mid_int)), gens.text_cell),
    "float": st.one_of(gens.dec_cell, gens.dec_cell, gens.int_cell(gens.small_int), gens.text_cell),
    "text": gens.text_cell,
    "category": st.one_of(gens.cat_cell, gens.cat_cell, gens.text_cell),
    "datetime": gens.date_cell(),
}


@st.composite
def coltype_case(draw, max_len=30):
    t = draw(st.sampled_from(sorted(COLTYPES)))
    w, typed, ordered = draw(st.lists(st.integers(0, 5), min_size=2, max_size=5)), draw(st.booleans()), draw(st.integers(0, 3)) == 0
    cells = draw(st.lists(COLTYPES[t], min_size=1, max_size=max_len))
    if typed:  # typed cells only
        good = [c for c in cells if not c.startswith(("w", "v"))] if t in ("int", "float") else cells
        cells = good or cells
    if ordered:
        cells = sorted(cells)
    return {"t": t, "cells": cells, "w": w}


def col_class(t):
    from dataprofiler.profilers import CategoricalColumn, DateTimeColumn, FloatColumn, IntColumn, TextColumn

    return {"int": IntColumn, "float": FloatColumn, "text": TextColumn, "category": CategoricalColumn,
            "datetime": DateTimeColumn}[t]


def segments(cells, w):
    """cut cells in len(w) consecutive, possibly empty, segments with the given weights"""
    tot = sum(w) or 1
    cuts = [0] + [round(len(cells) * sum(w[:i + 1]) / tot) if sum(w) else 0 for i in range(len(w) - 1)] + [len(cells)]
    return [cells[a:b] for a, b in zip(cuts, cuts[1:])]


def compare_coltype(ctx, t, got, want, cells):
    def ck(cond, key, a, b):
        ctx.check(cond, key, lambda: "%s column %s: %r, one pass %r (cells %r)" % (t, key, a, b, cells[:30]))

    for k in ("sample_size", "match_count", "data_type_ratio"):
        if hasattr(want, k):
            ck(ref.same(getattr(got, k), getattr(want, k)), k, getattr(got, k), getattr(want, k))
    a, b = got.profile, want.profile
    if t == "category":
        ck(a["categorical"] == b["categorical"], "categorical", a["categorical"], b["categorical"])
        sa, sb = a["statistics"], b["statistics"]
        ck(set(sa) == set(sb), "keys", sorted(sa), sorted(sb))
        for k in ("unique_count", "unique_ratio"):
            ck(ref.same(sa[k], sb[k]), k, sa[k], sb[k])
        if "categories" in sb:
            ck(sorted(sa["categories"]) == sorted(sb["categories"]), "categories", sa["categories"], sb["categories"])
            ck(sa["categorical_count"] == sb["categorical_count"], "categorical_count", sa["categorical_count"],
               sb["categorical_count"])
            for k in ("gini_impurity", "unalikeability"):
                ck(ref.close(sa[k], sb[k], 1e-9, 1e-12), k, sa[k], sb[k])
        return
    if t == "datetime":
        for k in ("min", "max"):
            # ties between spellings of one instant may resolve to either spelling
            ck(a[k] == b[k] or parse_date(a[k]) == parse_date(b[k]), k, a[k], b[k])
        ck(sorted(a["format"]) == sorted(b["format"]), "format", a["format"], b["format"])
        return
    good = [c for c in cells if t == "text" or _num(c) is not None]
    if t == "int":
        good = [c for c in good if float(c) == int(float(c))]
    fake = {"column_name": 0, "data_type": t if t != "text" else "string", "categorical": None}
    for d in (a, b):
        d.update({"null_types": [], "null_types_index": {}})
    compare_column(ctx, dict(fake, statistics=a), dict(fake, statistics=b), good, 0)


def _num(c):
    try:
        return float(c)
    except ValueError:
        return None


def parse_date(s):
    import datetime

    if s is None:
        return None
    for f in FORMATS:
        try:
            return datetime.datetime.strptime(s, f)
        except ValueError:
            pass
    return None
