"""Null accounting against a direct model of the null markers."""
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P05", "at least two columns or two batches with at least one null cell and one non-null cell",
            ["cells hold no line breaks", "row labels are unique within a batch unless the 'duplicate labels' mode is "
             "drawn; string labels are unique over all batches"])

DEFAULTS = {"": 0, "nan": 2, "none": 2, "null": 2, "  *": 0, "--*": 0, "__*": 0}
CUSTOM = [
    None, None, None,
    {"": 0, "N/A": 0, "nan": 2},
    {"na": 2, "9*9": 0},
    {"-1": 0, "missing|void": 0, "Q": 0},
    {"(x)+y?": 0, "none": 2},
    dict(DEFAULTS, **{"9999999": 0}),
]
COLNULLS = [None, None, {0: {"7": 0}}, {1: {"yes": 2, "7": 0}, 0: {"red": 0}}, {2: {"Red": 0}}]

CELLS = st.one_of(
    st.sampled_from(["1", "2", "7", "99", "9", "999", "9999999", "-1", "3.5", "red", "Red", "yes", "YES", "xy", "xxy",
                     "q", "Q", "void", "Void", "missing"]),
    st.sampled_from(["", "nan", "NaN", "None", "NULL", "none", " ", "    ", "--", "----", "-", "_", "__", "___", "n/a",
                     "N/A", "NA", "na", "nul", "nulls", "a nan", "-- ", "_-", "nan "]),
    st.sampled_from([{"o": "none"}, {"o": "nan"}, {"o": 7}, {"o": 3.5}, {"o": True}, {"o": "nat"}]),
)


def cell(c):
    if isinstance(c, dict):
        v = c["o"]
        return {"none": None, "nan": float("nan"), "nat": pd.NaT}.get(v, v) if isinstance(v, str) else v
    return c


def is_null(s, pats):
    return any(re.fullmatch(p, s, f) for p, f in pats.items())


@st.composite
def cases(draw):
    k = draw(st.integers(1, 3))
    nb = draw(st.sampled_from([2, 3, 4, 1]))
    small = {"nulls": draw(st.integers(0, len(CUSTOM) - 1)),
             "colnulls": draw(st.integers(0, len(COLNULLS) - 1)),
             "index": draw(st.sampled_from(["zero", "zero", "continue", "gaps", "str", "shuffled", "dup", "mixed", "offsets",
                                            "offsets"])),
             "offs": draw(st.lists(st.sampled_from([0, 0, 1, 3, 6, 10, 14, 30]), min_size=nb, max_size=nb)),
             "swell": draw(util.SWELL), "mts": draw(st.sampled_from([0, 0, 0, 1, 3])), "dropna": draw(st.booleans()),
             "merge": draw(st.sampled_from(["no", "no", "no", "halves", "then-update"]))}
    reorder = draw(st.lists(st.permutations(range(k)), min_size=nb, max_size=nb))
    batches = []
    for _ in range(nb):
        n = draw(st.integers(1, 7))
        cols = [draw(st.lists(CELLS, min_size=n, max_size=n)) for _ in range(k)]
        if draw(st.integers(0, 3)) == 0:  # rows that are null throughout
            r = draw(st.integers(0, n - 1))
            for c in cols:
                c[r] = draw(st.sampled_from(["", "nan", "None", {"o": "nan"}]))
        batches.append(cols)
    return dict(small, batches=batches, reorder=reorder)


def labels(mode, i, n, start, offs):
    if mode == "offsets":
        return list(range(offs[i], offs[i] + n))
    if mode == "zero" or (mode == "mixed" and i != 2):
        return list(range(n))
    if mode == "continue":
        return list(range(start, start + n))
    if mode == "gaps":
        return [start * 3 + 3 * j + 5 for j in range(n)]
    if mode == "mixed":
        return list(range(1000, 1000 + n))
    if mode == "str":
        return ["r%d" % (start + j) for j in range(n)]
    if mode == "shuffled":
        return [start + j for j in range(n)][::-1]
    return [j // 2 for j in range(n)]  # duplicate labels


@PROP.sub("nulls", cases(), quick=800, thorough=16000)
def nulls(case, ctx):
    pats = CUSTOM[case["nulls"]]
    colpats = COLNULLS[case["colnulls"]]
    k = len(case["batches"][0])
    names = ["A", "B", "C"][:k]
    o = util.options()
    if pats is not None:
        o.set({"*.null_values": {p: (re.IGNORECASE if f else 0) for p, f in pats.items()}})
    if colpats is not None:
        o.set({"*.column_null_values": {c: {p: (re.IGNORECASE if f else 0) for p, f in d.items()}
                                        for c, d in colpats.items()}})
    base = DEFAULTS if pats is None else pats
    model = [dict(base, **(colpats or {}).get(c, {})) for c in range(k)]
    frames, start, all_labels, rows = [], 0, [], []
    named = case["merge"] == "no"  # reordered columns in merges belong to P19
    for i, cols in enumerate(case["batches"]):
        cols = util.swell_cols(cols, None if i else case.get("swell"))
        n = len(cols[0])
        lab = labels(case["index"], i, n, start, case["offs"])
        df = pd.DataFrame({c: pd.Series([cell(x) for x in cols[c]], dtype=object, index=None) for c in range(k)})
        df.columns = names
        df.index = lab
        perm = case["reorder"][i] if (named and i > 0) else list(range(k))
        frames.append(df[[names[j] for j in perm]])
        all_labels.append(lab)
        for r in range(n):
            rows.append([str(df.iloc[r, c]) for c in range(k)])
        start += n

    def prof(fs):
        p = dp.Profiler(fs[0], options=o, min_true_samples=case["mts"])
        for f in fs[1:]:
            p.update_profile(f)
        return p

    if case["merge"] == "no" or len(frames) < 2:
        p = prof(frames)
    else:
        h = max(1, len(frames) // 2)
        if case["merge"] == "then-update" and len(frames) > 2:
            p = prof(frames[:1]) + prof(frames[1:2])
            for f in frames[2:]:
                p.update_profile(f)
            ctx.label("merge-update")
        else:
            p = prof(frames[:h]) + prof(frames[h:])
            ctx.label("merge")
    rep = p.report()
    N = len(rows)
    flags = [[is_null(r[c], model[c]) for c in range(k)] for r in rows]
    nnull = sum(map(sum, flags))
    ctx.nt(0 < nnull < N * k and (k > 1 or len(frames) > 1))
    ctx.label(case["index"])
    ctx.label("custom" if pats is not None else "default")
    if colpats:
        ctx.label("column-nulls")
    g = rep["global_stats"]
    ctx.check(g["row_count"] == N and g["samples_used"] == N, "row_count", lambda: "%r/%r for %d rows" % (
        g["row_count"], g["samples_used"], N))
    has = sum(any(f) for f in flags)
    isn = sum(all(f) for f in flags)
    ctx.check(ref.close(g["row_has_null_ratio"], has / N, 1e-12), "row_has_null_ratio", lambda: "%r, %d of %d rows" % (
        g["row_has_null_ratio"], has, N))
    ctx.check(ref.close(g["row_is_null_ratio"], isn / N, 1e-12), "row_is_null_ratio", lambda: "%r, %d of %d rows" % (
        g["row_is_null_ratio"], isn, N))
    for c in range(k):
        s = rep["data_stats"][c]["statistics"]
        ctx.check(rep["data_stats"][c]["column_name"] == names[c], "column_name", "")
        ctx.check(s["sample_size"] == N, "sample_size", lambda: "%r of %d" % (s["sample_size"], N))
        cnt = {}
        for r, f in zip(rows, flags):
            if f[c]:
                cnt[r[c]] = cnt.get(r[c], 0) + 1
        ctx.check(s["null_count"] == sum(cnt.values()), "null_count", lambda: "column %d: %r, model %r" % (
            c, s["null_count"], cnt))
        ctx.check(sorted(s["null_types"]) == sorted(cnt), "null_types", lambda: "column %d: %r, model %r" % (
            c, s["null_types"], cnt))
        got = {t: set(v) for t, v in s["null_types_index"].items()}
        ctx.check({t: len(v) for t, v in got.items()} == cnt, "null_types_index sizes",
                  lambda: "column %d: %r, model %r" % (c, got, cnt))
        if case["index"] in ("continue", "gaps", "str", "shuffled", "zero") and not (
                case["index"] == "zero" and len(frames) > 1 and any(not b for b in case["batches"])):
            want, pos, i = {}, 0, 0
            for bi, lab in enumerate(all_labels):
                for l in lab:
                    if flags[pos][c]:
                        want.setdefault(rows[pos][c], set()).add(pos if case["index"] == "zero" else l)
                    pos += 1
            ctx.check(got == want, "null_types_index", lambda: "column %d: %r, model %r" % (c, got, want))


@PROP.sub("labels", st.fixed_dictionaries({
    "bs": st.lists(st.tuples(st.integers(0, 12), st.lists(st.sampled_from(["", "", "nan", "1"]), min_size=1, max_size=4)),
                   min_size=2, max_size=5),
    "merge": st.sampled_from(["no", "no", "all", "tail"])}), quick=400, thorough=8000)
def overlapping(case, ctx):
    """batches with any integer row labels: every null cell keeps a position of its own"""
    from vp.checks.p08 import build

    o = util.options()
    o.set({"*.is_enabled": False, "row_statistics.is_enabled": True, "row_statistics.null_count.is_enabled": True})

    def mk(b):
        return pd.DataFrame({"A": b[1]}, dtype=object, index=range(b[0], b[0] + len(b[1])))

    p = build(case["bs"], case["merge"], lambda b: dp.Profiler(mk(b), options=o, profiler_type="structured"),
              lambda p, b: p.update_profile(mk(b)))
    s = p.report()["data_stats"][0]["statistics"]
    cnt = {}
    for _, cells in case["bs"]:
        for c in cells:
            if c != "1":
                cnt[c] = cnt.get(c, 0) + 1
    got = {t: set(v) for t, v in s["null_types_index"].items()}
    ctx.check({t: len(v) for t, v in got.items()} == cnt, "positions per null type", lambda: "%r, model %r" % (got, cnt))
    ctx.check(sum(map(len, got.values())) == len(set().union(*got.values())) if got else True, "distinct positions",
              lambda: repr(got))
    n = sum(len(b[1]) for b in case["bs"])
    r = p.report()["global_stats"]["row_has_null_ratio"]
    ctx.check(ref.close(r, sum(cnt.values()) / n, 1e-12), "row_has_null_ratio", lambda: "%r, %r of %d" % (r, cnt, n))
    ctx.nt(sum(cnt.values()) > 1)
