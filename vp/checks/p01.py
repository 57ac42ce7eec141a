import math

import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P01", "at least 4 values of which at least 2 distinct, with moments compared against exact rational "
            "arithmetic (well-conditioned data)",
            ["float64 rounding tolerance 1e-6 relative (1e-5 for skewness/kurtosis); moments judged only when "
             "max|x|/stddev < 1e4 and stddev > 1e-2 (the code zeroes tiny moments by design); magnitudes up to 1e12"])


def check_numeric(ctx, stats, xs, bias, prefix="", has_sign=True):
    m = ref.moments(xs)
    ck = lambda cond, key, exp: ctx.check(  # noqa: E731
        cond, key, lambda: "%s: reported %r, exact %r for %d values %r" % (prefix + key, stats.get(key), exp, len(xs),
                                                                          xs[:20]))
    ck(stats["min"] == m["min"], "min", m["min"])
    ck(stats["max"] == m["max"], "max", m["max"])
    tol = 1e-13 * len(xs) * m["abssum"] + 1e-300
    ck(ref.close(stats["sum"], m["sum"], 1e-9, tol), "sum", m["sum"])
    ck(ref.close(stats["mean"], m["mean"], 1e-9, tol / len(xs)), "mean", m["mean"])
    if has_sign:
        ck(stats["num_zeros"] == sum(1 for x in xs if x == 0), "num_zeros", sum(1 for x in xs if x == 0))
        ck(stats["num_negatives"] == sum(1 for x in xs if x < 0), "num_negatives", sum(1 for x in xs if x < 0))
    v, s, k = ref.corrected(m, bias)
    if m["constant"] and m["absmax"] < 1e6 and all(float(x).is_integer() for x in xs):
        ck(ref.close(stats["variance"], v, 0, 1e-9), "variance", v)
        ck(ref.close(stats["stddev"], math.sqrt(v) if v == v else v, 0, 1e-6), "stddev", v)
        ck(ref.close(stats["skewness"], s, 0, 1e-9), "skewness", s)
        ck(ref.close(stats["kurtosis"], k, 1e-9, 1e-9), "kurtosis", k)
        ctx.label("constant")
    elif m["cond_ok"]:
        ck(ref.close(stats["variance"], v, 1e-6), "variance", v)
        ck(ref.close(stats["stddev"], math.sqrt(v) if v == v else v, 1e-6), "stddev", v)
        ck(ref.close(stats["skewness"], s, 1e-5, 1e-5), "skewness", s)
        ck(ref.close(stats["kurtosis"], k, 1e-5, 1e-5 * (1 + (abs(k) if k == k else 0))), "kurtosis", k)
        ctx.label("moments")
        ctx.nt(len(xs) >= 4)
    return m


# -------- the per-type column profilers, every non-null value of a column handed over at once
cells = st.one_of(
    st.fixed_dictionaries({"t": st.just("int"), "v": st.lists(gens.int_cell(), min_size=1, max_size=40)}),
    st.fixed_dictionaries({"t": st.just("float"), "v": st.lists(gens.float_cell, min_size=1, max_size=40)}),
    st.fixed_dictionaries({"t": st.just("text"), "v": st.lists(gens.text_cell, min_size=1, max_size=40)}),
    # values that do not fit the column's type must not contribute
    st.fixed_dictionaries({"t": st.just("int"), "v": st.lists(
        st.one_of(gens.int_cell(), gens.dec_cell, gens.text_cell), min_size=1, max_size=30)}),
    st.fixed_dictionaries({"t": st.just("float"), "v": st.lists(
        st.one_of(gens.float_cell, gens.text_cell), min_size=1, max_size=30)}),
)


def _is_float(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def _is_int(s):
    return _is_float(s) and math.isfinite(float(s)) and float(s) == int(float(s))


def values_of(t, cells):
    if t == "int":
        return [float(c) for c in cells if _is_int(c)]
    if t == "float":
        return [float(c) for c in cells if _is_float(c)]
    return [float(len(c)) for c in cells]


@PROP.sub("column", st.fixed_dictionaries({"col": cells, "bias": st.booleans()}), quick=6000, thorough=120000)
def column(case, ctx):
    from dataprofiler.profilers import FloatColumn, IntColumn, TextColumn
    from dataprofiler.profilers.profiler_options import FloatOptions, IntOptions, TextOptions

    t, v = case["col"]["t"], case["col"]["v"]
    C, O = {"int": (IntColumn, IntOptions), "float": (FloatColumn, FloatOptions), "text": (TextColumn, TextOptions)}[t]
    o = O()
    o.bias_correction.is_enabled = case["bias"]
    c = C("a", o)
    c.update(pd.Series(v, dtype=object))
    xs = values_of(t, v)
    ctx.label(t)
    if not xs:
        ctx.check(c.match_count == 0, "match_count", "no value fits yet match_count=%r" % c.match_count)
        return
    ctx.check(c.match_count == len(xs), "match_count", lambda: "%r != %d for %r" % (c.match_count, len(xs), v))
    check_numeric(ctx, c.profile, xs, case["bias"], has_sign=t != "text")


# -------- the same through the whole profiler, with null cells and several columns
one_col = st.one_of(
    st.tuples(st.just("int"), st.lists(st.one_of(gens.int_cell(), gens.int_cell(), gens.null_cell), max_size=25)),
    st.tuples(st.just("float"), st.lists(st.one_of(gens.dec_cell, gens.dec_cell, gens.null_cell), max_size=25)),
    st.tuples(st.just("text"), st.lists(st.one_of(gens.text_cell, gens.text_cell, gens.null_cell), max_size=25)),
    st.tuples(st.sampled_from(["float"]), gens.bulk_spec(lo=60, hi=900)),
)


@PROP.sub("profiler", st.fixed_dictionaries({"cols": st.lists(one_col, min_size=1, max_size=3), "bias": st.booleans()}),
          quick=700, thorough=12000)
def profiler(case, ctx):
    cols = [gens.expand(c[1]) for c in case["cols"]]
    n = max(len(c) for c in cols)
    if n == 0:
        return
    filler = {"int": "3", "float": "2.5", "text": "wpad"}
    cols = [c + [filler[k[0]]] * (n - len(c)) for k, c in zip(case["cols"], cols)]
    o = util.set_options({"*.bias_correction.is_enabled": case["bias"]})
    rep = util.profile(util.frame(cols), o).report()
    for i, cells in enumerate(cols):
        d = rep["data_stats"][i]
        good = [c for c in cells if c not in gens.NULL_SAFE]
        if not good:
            continue
        want = "int" if all(map(_is_int, good)) else "float" if all(map(_is_float, good)) else "text"
        got = {"string": "text"}.get(d["data_type"], d["data_type"])
        if got == "datetime":
            ctx.label("read-as-date")  # e.g. '20200101'; the type choice is another property
            continue
        ctx.check(got == want, "data_type", lambda: "%r for %r" % (d["data_type"], good[:20]))
        ctx.label(want)
        check_numeric(ctx, d["statistics"], values_of(want, good), case["bias"], "col %d " % i, want != "text")
