import pandas as pd
from hypothesis import strategies as st

from vp import gens, history, ref, util
from vp.core import Prop

PROP = Prop("P03", "a merge of two profiles, each of at least one row, whose data differ",
            ["full sampling (at most 5000 rows per profile)", "histograms/quantiles of merges are judged by P07, "
             "order by P11, correlation by P13", "moments compared when max|x|/stddev < 1e3"])

SHAPES = ["ab", "ab", "(ab)c", "a(bc)", "(ab)(cd)", "ab+c", "a+b,c", "(ab+c)d"]


def build(shape, segs, opts):
    """profile of the given shape over consecutive segments; '+' is an update of the profile before it"""
    P = lambda d: util.profile(d, opts())  # noqa: E731
    s = segs
    if shape == "ab":
        return P(s[0]) + P(s[1])
    if shape == "(ab)c":
        return (P(s[0]) + P(s[1])) + P(s[2])
    if shape == "a(bc)":
        return P(s[0]) + (P(s[1]) + P(s[2]))
    if shape == "(ab)(cd)":
        return (P(s[0]) + P(s[1])) + (P(s[2]) + P(s[3]))
    if shape == "ab+c":
        p = P(s[0]) + P(s[1])
        p.update_profile(s[2])
        return p
    if shape == "a+b,c":
        p = P(s[0])
        p.update_profile(s[1])
        return p + P(s[2])
    if shape == "(ab+c)d":
        p = P(s[0]) + P(s[1])
        p.update_profile(s[2])
        return p + P(s[3])
    raise ValueError(shape)


NEED = {"ab": 2, "(ab)c": 3, "a(bc)": 3, "(ab)(cd)": 4, "ab+c": 3, "a+b,c": 3, "(ab+c)d": 4}


@PROP.sub("merges", st.fixed_dictionaries({
    "cols": history.table(min_rows=4), "w": st.lists(st.integers(1, 6), min_size=4, max_size=4),
    "shape": st.sampled_from(SHAPES), "reset": st.booleans(), "bias": st.booleans()}), quick=320, thorough=9000)
def merges(case, ctx):
    df = util.frame(case["cols"])
    k = NEED[case["shape"]]
    w = case["w"][:k]
    tot = sum(w)
    parts = gens.splits(len(df), [sum(w[:i + 1]) / tot for i in range(k - 1)])
    while len(parts) < k:  # always enough non-empty segments: split the longest
        j = max(range(len(parts)), key=lambda q: parts[q][1] - parts[q][0])
        a, b = parts[j]
        parts[j:j + 1] = [(a, a + (b - a) // 2), (a + (b - a) // 2, b)]
    opts = lambda: util.set_options({"*.bias_correction.is_enabled": case["bias"]})  # noqa: E731
    one = util.report(util.profile(df, opts()), None)
    merged = build(case["shape"], [history.rebuild(df, a, b, case["reset"]) for a, b in parts], opts)
    ctx.label(case["shape"])
    ctx.nt(any(set(c[parts[0][0]:parts[0][1]]) != set(c[parts[-1][0]:parts[-1][1]]) for c in case["cols"]))
    history.compare(ctx, util.report(merged, None), one, df)


@PROP.sub("commute", st.fixed_dictionaries({
    "cols": history.table(min_rows=2), "cut": st.floats(0, 1, width=16)}), quick=120, thorough=4000)
def commute(case, ctx):
    df = util.frame(case["cols"])
    i = min(len(df) - 1, max(1, int(case["cut"] * len(df))))
    a, b = df.iloc[:i], df.iloc[i:]
    ab = util.report(util.profile(a) + util.profile(b), None)
    ba = util.report(util.profile(b) + util.profile(a), None)
    ctx.nt(any(set(c[:i]) != set(c[i:]) for c in case["cols"]))
    history.compare(ctx, ba, ab, df)


@PROP.sub("bulk", st.fixed_dictionaries({
    "col": gens.bulk_spec(lo=300, hi=2500), "cuts": st.lists(st.floats(0, 1, width=16), min_size=1, max_size=5)}),
    quick=40, thorough=1200)
def bulk(case, ctx):
    df = util.frame([case["col"]])
    parts = gens.splits(len(df), case["cuts"])
    one = util.report(util.profile(df), None)
    p = util.profile(df.iloc[parts[0][0]:parts[0][1]])
    for a, b in parts[1:]:
        p = p + util.profile(df.iloc[a:b])
    ctx.nt(len(parts) > 1)
    history.compare(ctx, util.report(p, None), one, df)


@PROP.sub("columns", history.coltype_case(), quick=2000, thorough=50000)
def columns(case, ctx):
    """fold of + over per-segment profiles (some of them of no data at all), left and right associated"""
    t, cells = case["t"], case["cells"]
    C = history.col_class(t)

    def prof(c):
        p = C("a")
        p.update(pd.Series(c, dtype=object))
        return p

    segs = history.segments(cells, case["w"])
    one = prof(cells)
    left = prof(segs[0])
    for s in segs[1:]:
        left = left + prof(s)
    right = prof(segs[-1])
    for s in reversed(segs[:-1]):
        right = prof(s) + right
    ctx.label(t)
    ctx.nt(sum(1 for s in segs if s) > 1 and len(set(map(tuple, segs))) > 1)
    history.compare_coltype(ctx, t, left, one, cells)
    history.compare_coltype(ctx, t, right, one, cells)


@PROP.sub("list", st.fixed_dictionaries({
    "cols": history.table(min_rows=5), "k": st.integers(1, 5), "pool": st.sampled_from([0] * 12 + [1, 3]), "reset": st.booleans()}), quick=60, thorough=1000)
def merge_list(case, ctx):
    """merging a list of profiles by a pool of workers"""
    df = util.frame(case["cols"])
    k, n = case["k"], len(df)
    parts = [(n * i // k, n * (i + 1) // k) for i in range(k)]
    one = util.report(util.profile(df, util.set_options({})), None)
    ps = [util.profile(history.rebuild(df, a, b, case["reset"]), util.set_options({})) for a, b in parts]
    before = [util.strip_times(util.report(p, None)) for p in ps]
    given = list(ps)
    m = util.merge_list(given, inline=not case["pool"], pool_count=case["pool"])
    ctx.check(len(given) == k and all(a is b for a, b in zip(given, ps)), "list", "the list of profiles changed")
    for i, p in enumerate(ps):
        now = util.strip_times(util.report(p, None))
        ctx.check(ref.same(now, before[i]), "operand", lambda: "profile %d of the list changed: %s" % (i, ref.first_diff(now, before[i])))
    ctx.label("profiles:%d%s" % (k, " by workers" if case["pool"] and k > 1 else ""))
    ctx.nt(k > 1)
    history.compare(ctx, util.report(m, None), one, df)
