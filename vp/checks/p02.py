import pandas as pd
from hypothesis import strategies as st

from vp import gens, history, util
from vp.core import Prop

PROP = Prop("P02", "at least two non-empty batches, and at least one column whose values differ between batches",
            ["full sampling (at most 5000 rows per batch)", "histograms, quantiles and order across batches are "
             "judged by P07 and P11", "moments compared when max|x|/stddev < 1e3"])


@PROP.sub("updates", st.fixed_dictionaries({
    "cols": history.table(), "cuts": st.lists(st.floats(0, 1, width=16), min_size=1, max_size=4),
    "reset": st.booleans(), "empty": st.booleans(), "bias": st.booleans()}), quick=520, thorough=16000)
def updates(case, ctx):
    df = util.frame(case["cols"])
    parts = gens.splits(len(df), case["cuts"])
    opts = lambda: util.set_options({"*.bias_correction.is_enabled": case["bias"]})  # noqa: E731
    one = util.report(util.profile(df, opts()), None)
    p = util.profile(history.rebuild(df, *parts[0], case["reset"]), opts())
    for a, b in parts[1:]:
        if case["empty"]:
            p.update_profile(df.iloc[:0])
        p.update_profile(history.rebuild(df, a, b, case["reset"]))
        if len(parts) > 2:
            p.report()  # looking at a profile between updates must not matter
    got = util.report(p, None)
    ctx.label("batches=%d" % len(parts))
    if len(parts) > 1:
        ctx.nt(any(set(c[parts[0][0]:parts[0][1]]) != set(c[parts[-1][0]:parts[-1][1]]) for c in case["cols"]))
    history.compare(ctx, got, one, df)


# bulk numeric data over many batches
@PROP.sub("bulk", st.fixed_dictionaries({
    "col": gens.bulk_spec(lo=300, hi=2500), "cuts": st.lists(st.floats(0, 1, width=16), min_size=1, max_size=6)}),
    quick=64, thorough=2000)
def bulk(case, ctx):
    df = util.frame([case["col"]])
    parts = gens.splits(len(df), case["cuts"])
    one = util.report(util.profile(df), None)
    p = util.profile(df.iloc[parts[0][0]:parts[0][1]])
    for a, b in parts[1:]:
        p.update_profile(df.iloc[a:b])
    ctx.nt(len(parts) > 1)
    history.compare(ctx, util.report(p, None), one, df)


@PROP.sub("columns", history.coltype_case(), quick=2400, thorough=60000)
def columns(case, ctx):
    t, cells = case["t"], case["cells"]
    C = history.col_class(t)
    S = lambda c: pd.Series(c, dtype=object)  # noqa: E731
    one = C("a")
    one.update(S(cells))
    p = C("a")
    segs = history.segments(cells, case["w"])
    for s in segs:
        p.update(S(s))
    ctx.label(t)
    ctx.nt(sum(1 for s in segs if s) > 1 and len(set(map(tuple, segs))) > 1)
    history.compare_coltype(ctx, t, p, one, cells)
