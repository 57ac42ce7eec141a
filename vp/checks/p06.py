"""Row counts: total, unique, duplicate rows, exactly or (HyperLogLog) within its standard error."""
import math

import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P06", "at least one duplicated and one unique row, spread over at least two batches or operands",
            ["cells are strings, or missing (None)", "HyperLogLog counts may be off by 1 + 6 standard "
             "errors of the configured register count"])

SEP = st.sampled_from(["a", "b", "", "ab", "a,b", " ", "nan", "None", "1", "1.0", "01", "é", "\"", "x\ty", "{", "\\"])


@st.composite
def cases(draw):
    k = draw(st.integers(1, 3))
    nb = draw(st.sampled_from([2, 3, 4, 1]))
    small = {"mode": draw(st.sampled_from(["full", "full", "hll"])),
             "p": draw(st.sampled_from([8, 15, 12])), "seed": draw(st.integers(0, 3)),
             "names": draw(st.sampled_from(["distinct", "distinct", "same"])),
             "merge": draw(st.sampled_from(["no", "no", "all", "all-rev", "mixed", "tree"])),
             "reorder": draw(st.booleans()), "zero": draw(st.booleans())}
    # a missing cell is a value of its own (pandas hashes it like the text "nan", so they are not mixed)
    cell = draw(st.sampled_from([SEP, SEP, st.one_of(st.none(), SEP.filter(lambda c: c not in ("nan", "None")))]))
    pool = draw(st.lists(st.lists(cell, min_size=k, max_size=k), min_size=1, max_size=6))
    batches = [draw(st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=9)) for _ in range(nb)]
    return dict(small, pool=pool, batches=batches)


def combine(frames, how, mk):
    if how == "no" or len(frames) < 2:
        p = mk(frames[0])
        for f in frames[1:]:
            p.update_profile(f)
        return p
    ps = None
    if how in ("all", "all-rev"):
        ps = [mk(f) for f in frames]
        if how == "all-rev":
            ps = ps[::-1]
        p = ps[0]
        for q in ps[1:]:
            p = p + q
        return p
    if how == "tree":
        ps = [mk(f) for f in frames]
        while len(ps) > 1:
            ps = [ps[i] + ps[i + 1] if i + 1 < len(ps) else ps[i] for i in range(0, len(ps), 2)]
        return ps[0]
    p = mk(frames[0]) + mk(frames[1])
    for f in frames[2:]:
        p.update_profile(f)
    return p


def judge(ctx, rep, rows, case):
    g = rep["global_stats"]
    N, U = len(rows), len(set(map(tuple, rows)))
    ctx.check(g["row_count"] == N, "row_count", lambda: "%r for %d rows" % (g["row_count"], N))
    ctx.check(g["samples_used"] == N, "samples_used", lambda: "%r for %d rows" % (g["samples_used"], N))
    if case["mode"] == "full":
        ctx.check(ref.close(g["unique_row_ratio"], U / N, 1e-12), "unique_row_ratio", lambda: "%r, %d of %d unique" % (
            g["unique_row_ratio"], U, N))
        ctx.check(g["duplicate_row_count"] == N - U, "duplicate_row_count", lambda: "%r, %d of %d unique" % (
            g["duplicate_row_count"], U, N))
    else:
        tol = 1 + 6 * 1.04 / math.sqrt(2 ** case["p"]) * U
        est = g["unique_row_ratio"] * N
        ctx.check(abs(est - U) <= tol, "hll unique", lambda: "estimated %r of %d unique rows (p=%d)" % (
            est, U, case["p"]))
        ctx.check(abs(g["duplicate_row_count"] - (N - U)) <= tol, "hll duplicates", lambda: "%r of %d" % (
            g["duplicate_row_count"], N - U))
        # the two figures describe the same estimate
        ctx.check(g["duplicate_row_count"] == max(0, N - round(est)), "hll consistency", lambda: "%r vs %r" % (
            g["duplicate_row_count"], est))
    return N, U


def opts(case):
    d = {"*.is_enabled": False, "multiprocess.is_enabled": False, "row_statistics.is_enabled": True,
         "row_statistics.unique_count.is_enabled": True, "row_statistics.null_count.is_enabled": True,
         "row_statistics.unique_count.hashing_method": case["mode"]}
    if case["mode"] == "hll":
        d.update({"row_statistics.unique_count.hll.register_count": case["p"],
                  "row_statistics.unique_count.hll.seed": case["seed"]})
    o = dp.ProfilerOptions()
    o.set(d)
    return o


@PROP.sub("rows", cases(), quick=900, thorough=20000)
def rows(case, ctx):
    k = len(case["pool"][0])
    names = ["n%d" % i for i in range(k)] if case["names"] == "distinct" else ["n"] * k
    frames, allrows, start = [], [], 0
    for bi, b in enumerate(case["batches"]):
        rs = [case["pool"][i] for i in b]
        df = pd.DataFrame(rs, dtype=object)
        df.columns = names
        if not case["zero"]:
            df.index = range(start, start + len(rs))
        start += len(rs)
        if case["reorder"] and bi % 2 and case["names"] == "distinct" and case["merge"] == "no":
            df = df[names[::-1]]
            ctx.label("reordered")
        frames.append(df)
        allrows += rs
    p = combine(frames, case["merge"], lambda f: dp.Profiler(f, options=opts(case), profiler_type="structured"))
    N, U = judge(ctx, util.report(p), allrows, case)
    ctx.label(case["mode"])
    ctx.label("merge:" + case["merge"] if len(frames) > 1 else "single")
    ctx.nt(1 < U < N and len(frames) > 1)


@PROP.sub("bulk", st.fixed_dictionaries({
    "n": st.integers(500, 6000), "distinct": st.integers(1, 5000), "seed": st.integers(0, 10**6),
    "mode": st.sampled_from(["full", "hll", "hll"]), "p": st.sampled_from([8, 10, 12, 15]),
    "cut": st.floats(0, 1, width=16), "merge": st.sampled_from(["no", "all", "mixed"])}),
    quick=64, thorough=1200)
def bulk(case, ctx):
    import numpy as np

    r = np.random.RandomState(case["seed"])
    ids = r.randint(0, case["distinct"], size=case["n"])
    rs = [["k%d" % i, "v%d" % (i % 7)] for i in ids]
    df = pd.DataFrame(rs, dtype=object, columns=["a", "b"])
    i = min(len(df) - 1, max(1, int(case["cut"] * len(df))))
    o = dict(case, seed=case["seed"] % 5)
    mk = lambda f: dp.Profiler(f, options=opts(o), profiler_type="structured", samples_per_update=10000)  # noqa: E731
    p = combine([df.iloc[:i], df.iloc[i:]], case["merge"], mk)
    N, U = judge(ctx, util.report(p), rs, case)
    ctx.label(case["mode"])
    ctx.nt(1 < U < N)
