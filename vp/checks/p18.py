"""P18: which rows are profiled, and by which processes, never shows in the statistics of those rows."""
import contextlib
import os
import pickle
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import history, ref, sut, util
from vp.checks.p04 import OPTS, snap
from vp.core import Prop, Skip
from vp.sut import dp

from dataprofiler.profilers import profiler_utils  # noqa: E402

PROP = Prop("P18", "a strict subsample was profiled, or a worker pool did part of the work",
            ["data labeler off", "worker faults are injected through a stand-in pool that pickles what crosses it; "
             "a few cases per run use real processes"])


# ------------------------------------------------------------------ which rows are profiled
# column values are powers of two, so that the reported sum tells exactly which rows were used
@st.composite
def sample_case(draw):
    n = draw(st.integers(4, 40))
    nb = draw(st.integers(1, 2))
    return {"n": n, "k": draw(st.integers(1, n)), "mts": draw(st.sampled_from([None, 0, 1, 3, 8])),
            "seed": draw(st.integers(0, 10**6)), "cut": draw(st.integers(1, n - 1)) if nb == 2 else None,
            "via": draw(st.sampled_from(["init", "update"])), "reset": draw(st.booleans()),
            "null": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, n - 1)), max_size=n)),
            "perm": list(draw(st.permutations(range(n))))}


def decode(total, exps):
    """rows (positions in exps) whose power is part of the sum"""
    total = int(total)
    out = {i for i, x in enumerate(exps) if total >> x & 1}
    return out if sum(1 << exps[i] for i in out) == total else None


@PROP.sub("rows", sample_case(), quick=420, thorough=12000)
def rows(c, ctx):
    n, k, mts = c["n"], c["k"], c["mts"]
    exps = [list(range(n)), list(c["perm"])]
    cols = [[str(1 << x) for x in e] for e in exps]
    for j, i in c["null"]:
        cols[j][i] = ""
    df = util.frame(cols)
    parts = [df] if c["cut"] is None else [df.iloc[:c["cut"]], df.iloc[c["cut"]:]]
    o = util.set_options({"*.histogram_and_quantiles.is_enabled": False, "*.median.is_enabled": False,
                          "*.mode.is_enabled": False, "*.median_abs_deviation.is_enabled": False,
                          "datetime.is_enabled": False})
    sut.reset(c["seed"])
    kw = {"samples_per_update": k} if c["via"] == "init" else {}
    if mts is not None:
        kw["min_true_samples"] = mts
    p = util.profile(None, o, profiler_type="structured", **kw)
    off = 0
    used = [set(), set()]
    rep = None
    for part in parts:
        part_len = len(part)
        d = part.reset_index(drop=True) if c["reset"] else part.copy()
        p.update_profile(d, **({"sample_size": k} if c["via"] == "update" else {}))
        rep = util.report(p, "serializable")
        sets = []
        for j in (0, 1):
            s = rep["data_stats"][j]["statistics"]
            size = s["sample_size"] - len(used[j])
            nulls = {x for v in s["null_types_index"].values() for x in v}
            good = decode(s.get("sum") or 0, exps[j])
            ctx.check(good is not None, "sum", lambda: "sum %r of column %d is not a sum of distinct rows" % (
                s.get("sum"), j))
            now = {i for i in (good | nulls) if i not in used[j]}
            ctx.check(all(off <= i < off + part_len for i in now), "range", lambda: "rows %r of batch %d..%d" % (
                sorted(now), off, off + part_len))
            ctx.check(len(now) == size, "count", lambda: "column %d: %d rows used, sample_size says %d (rows %r)" % (
                j, len(now), size, sorted(now)))
            ctx.check(not good & nulls and all((cols[j][i] == "") == (i in nulls) for i in now), "nulls",
                      lambda: "column %d nulls %r" % (j, sorted(nulls)))
            want = min(k, part_len)
            true_now = sum(cols[j][i] != "" for i in now)
            true_all = sum(cols[j][i] != "" for i in range(off, off + part_len))
            if not mts:
                ctx.check(size == want, "size", lambda: "%d rows sampled, %d asked for" % (size, want))
            else:
                ctx.check(size == part_len or size % k == 0, "chunks", lambda: "%d rows sampled in chunks of %d" % (size, k))
                ctx.check(true_now >= min(mts, true_all), "min_true", lambda: "%d true samples, %d asked for, %d there" % (
                    true_now, mts, true_all))
                if size > want:
                    # the chunk before the last had not been enough
                    ctx.check(true_now - min(k, size - (size - 1) // k * k) < mts, "too many", lambda: "%d rows used for %d "
                              "true samples" % (size, mts))
            if size < part_len:
                ctx.nt()
            sets.append(now)
            used[j] |= now
            vals = [1 << exps[j][i] for i in used[j] if cols[j][i] != ""]
            if vals and rep["data_stats"][j]["data_type"] == "int":
                ctx.check(s["min"] == min(vals) and s["max"] == max(vals), "extremes", lambda: (s["min"], s["max"], vals))
                ctx.check(s["unique_count"] == len(vals), "unique", lambda: (s["unique_count"], len(vals)))
                ctx.check(ref.close(s["mean"], sum(vals) / len(vals), 1e-12), "mean", lambda: (s["mean"], vals))
            shown = list(rep["data_stats"][j]["samples"])
            if true_now:
                ctx.check(len(shown) == min(5, true_now) == len(set(shown)) and set(shown) <= {cols[j][i] for i in now} - {""},
                          "shown samples", lambda: "%r of %r" % (shown, [cols[j][i] for i in now]))
        if not mts:
            ctx.check(sets[0] == sets[1], "aligned", lambda: "columns were sampled from different rows: %r" % (sets,))
        else:
            ctx.check(sets[0] <= sets[1] or sets[1] <= sets[0], "nested", lambda: "samples not nested %r" % (sets,))
        off += part_len
    ctx.check(rep["global_stats"]["row_count"] == n, "row_count", lambda: rep["global_stats"]["row_count"])


# ------------------------------------------------------------------ seeds
@PROP.sub("seed", st.fixed_dictionaries({
    "cols": history.table(min_rows=4, max_rows=16), "k": st.integers(1, 6), "seed": st.integers(0, 10**6),
    "noise": st.integers(1, 10**6), "how": st.sampled_from(["set_seed", "env"]), "opt": st.integers(0, len(OPTS) - 1)}),
    quick=150, thorough=4000)
def seed(c, ctx):
    """with a seed, two runs report the same, whatever else consumed random numbers in the process"""
    df = util.frame(c["cols"])
    reps = []
    for noise in (0, c["noise"]):
        sut.reset(None)
        random.seed(noise)
        np.random.seed(noise)
        if c["how"] == "set_seed":
            dp.set_seed(c["seed"])
        else:
            dp.set_seed(None)
            os.environ["DATAPROFILER_SEED"] = str(c["seed"])
        try:
            p = util.profile(df.copy(), util.set_options(OPTS[c["opt"]]), samples_per_update=c["k"])
            reps.append(snap(p))
        finally:
            sut.reset(0)
    if c["k"] < len(df):
        ctx.nt()
    ctx.label(c["how"])
    for s in reps:
        for x in s["data_stats"]:
            x["statistics"].pop("precision", None)  # rounded sums over shuffled values
    ctx.check(near(reps[0], reps[1]), "not reproducible", lambda: ref.first_diff(reps[0], reps[1]))


@PROP.sub("uniform", st.fixed_dictionaries({"n": st.integers(3, 12), "k": st.integers(1, 6), "base": st.integers(0, 10**6)}),
          quick=10, thorough=60)
def uniform(c, ctx):
    """over the seeds, every row has the same chance of being profiled"""
    n, k, runs = c["n"], min(c["k"], c["n"] - 1), 250
    df = util.frame([[str(1 << i) for i in range(n)]])
    o = util.set_options({"*.histogram_and_quantiles.is_enabled": False, "*.median.is_enabled": False,
                          "*.mode.is_enabled": False, "*.median_abs_deviation.is_enabled": False,
                          "datetime.is_enabled": False, "category.is_enabled": False, "order.is_enabled": False,
                          "chi2_homogeneity.is_enabled": False, "row_statistics.is_enabled": False})
    hits = [0] * n
    for r in range(runs):
        sut.reset(c["base"] + r)
        p = util.profile(df.copy(), o, samples_per_update=k)
        for i in decode(p.report()["data_stats"][0]["statistics"]["sum"], list(range(n))):
            hits[i] += 1
    ctx.nt()
    mean = runs * k / n
    sd = (runs * (k / n) * (1 - k / n)) ** 0.5
    ctx.check(sum(hits) == runs * k, "total", lambda: hits)
    # six standard deviations: fails by chance about once in 10**8 cases
    ctx.check(all(abs(h - mean) < 6 * sd + 1 for h in hits), "biased", lambda: "rows chosen %r times, expected %.0f" % (
        hits, mean))


@PROP.sub("sizes", st.fixed_dictionaries({"n": st.integers(4900, 9000), "ratio": st.sampled_from([None, 0.1, 0.8, 1.0]),
                                          "seed": st.integers(0, 1000)}), quick=16, thorough=200, cap=None)
def sizes(c, ctx):
    """a large batch is sampled at the sampling ratio, and never below 5000 rows"""
    n = c["n"]
    rs = np.random.RandomState(c["seed"])
    vals = rs.randint(-10**6, 10**6, n)
    df = pd.DataFrame({"a": vals.astype(str), "b": [str(i) for i in range(n)]})
    d = {"*.histogram_and_quantiles.is_enabled": False, "*.median.is_enabled": False, "*.mode.is_enabled": False,
         "*.median_abs_deviation.is_enabled": False, "datetime.is_enabled": False}
    if c["ratio"] is not None:
        d["structured_options.sampling_ratio"] = c["ratio"]
    sut.reset(c["seed"])
    p = util.profile(df, util.set_options(d))
    r = p.report()
    want = n if n <= 5000 else max(int((c["ratio"] if c["ratio"] is not None else 0.2) * n), 5000)
    if want < n:
        ctx.nt()
    for s in (x["statistics"] for x in r["data_stats"]):
        ctx.check(s["sample_size"] == want, "size", lambda: "%r of %d rows, expected %d" % (s["sample_size"], n, want))
        ctx.check(s["null_count"] == 0 and s["data_type_representation"]["int"] == 1.0, "stats", lambda: s)
    g = r["global_stats"]
    ctx.check(g["samples_used"] == want and g["row_count"] == n, "global", lambda: g)
    s = r["data_stats"][1]["statistics"]
    ctx.check(s["unique_count"] == want, "distinct", lambda: s["unique_count"])


# ------------------------------------------------------------------ workers
class Lost(Exception):
    pass


class Job:
    def __init__(self, res, err):
        self.res, self.err = res, err

    def get(self, timeout=None):
        if self.err:
            raise self.err
        return self.res


class StandIn:
    """a pool whose jobs run at once on pickled copies; 'submit' and 'lose' faults by job number"""

    def __init__(self, faults):
        self.faults, self.n, self.log = faults, 0, []

    def apply_async(self, func, args=(), kwds=None):
        f = self.faults[self.n % len(self.faults)] if self.faults else 0
        self.n += 1
        if f == 1:
            raise Lost("submit")
        func, args = pickle.loads(pickle.dumps((func, args)))
        try:
            res, err = func(*args, **(kwds or {})), None
        except Exception as e:  # noqa
            res, err = None, e
        if f == 2:
            res, err = None, Lost("lose")
        return Job(pickle.loads(pickle.dumps(res)), err)

    def close(self):
        pass

    join = terminate = close


@contextlib.contextmanager
def standin(faults, fail):
    if not hasattr(profiler_utils, "generate_pool") or not hasattr(profiler_utils, "auto_multiprocess_toggle"):
        raise Skip("no pool to replace")
    g, a = profiler_utils.generate_pool, profiler_utils.auto_multiprocess_toggle
    pools = []

    def gen(*_a, **_k):
        if fail and len(pools) % 2 == fail - 1:
            pools.append(None)
            return None, None
        pools.append(StandIn(faults))
        return pools[-1], 4

    profiler_utils.generate_pool, profiler_utils.auto_multiprocess_toggle = gen, lambda *x, **k: True
    try:
        yield pools
    finally:
        profiler_utils.generate_pool, profiler_utils.auto_multiprocess_toggle = g, a


def near(a, b, rel=1e-9):
    """equal up to the rounding of sums taken in another order"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a).tolist(), np.asarray(b).tolist()
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        if "margin_of_error" in a:
            rel = 1.01 * 10 ** (1 - max(1, int(a["max"]))) if a.get("max") is not None else rel
        return all(near(a[k], b[k], rel) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)) and not isinstance(a, bool):
        return ref.close(float(a), float(b), rel, 1e-9)
    return a == b


def run_batches(parts, opt, multi, mts):
    o = util.set_options(opt)
    o.set({"multiprocess.is_enabled": multi})
    kw = {} if mts is None else {"min_true_samples": mts}
    p = util.profile(None, o, profiler_type="structured", **kw)
    for x in parts:
        sut.reset()
        p.update_profile(x.copy())
    return snap(p)


@PROP.sub("workers", st.fixed_dictionaries({
    "cols": history.table(min_rows=2, max_rows=14), "opt": st.integers(0, len(OPTS) - 1), "cut": st.floats(0, 1, width=16),
    "faults": st.lists(st.sampled_from([0, 0, 0, 1, 2]), max_size=9), "fail": st.sampled_from([0, 0, 0, 1, 2]),
    "mts": st.sampled_from([None, None, 2]), "reset": st.booleans()}), quick=300, thorough=8000)
def workers(c, ctx):
    df = util.frame(c["cols"])
    i = max(1, int(c["cut"] * len(df)))
    parts = [x.reset_index(drop=True) if c["reset"] else x for x in (df.iloc[:i], df.iloc[i:]) if len(x)]
    want = run_batches(parts, OPTS[c["opt"]], False, c["mts"])
    with standin(c["faults"], c["fail"]) as pools:
        got = run_batches(parts, OPTS[c["opt"]], True, c["mts"])
    if any(p is not None and p.n for p in pools):
        ctx.nt()
        ctx.label("pool")
    if any(c["faults"]):
        ctx.label("faults")
    ctx.check(near(got, want), "differs", lambda: "with workers: %s" % ref.first_diff(got, want))


@PROP.sub("processes", st.fixed_dictionaries({
    "cols": history.table(min_rows=6, max_rows=10, max_cols=4), "opt": st.integers(0, len(OPTS) - 1),
    "mts": st.sampled_from([None, 2])}), quick=8, thorough=80, cap=None)
def processes(c, ctx):
    """the same with real processes, which tables of more than 20 columns start by themselves"""
    cols = (c["cols"] * 21)[:21]
    df = util.frame(cols)
    parts = [df, df.iloc[:3]]
    want = run_batches(parts, OPTS[c["opt"]], False, c["mts"])
    got = run_batches(parts, OPTS[c["opt"]], True, c["mts"])
    ctx.nt()
    ctx.check(near(got, want), "differs", lambda: "with processes: %s" % ref.first_diff(got, want))
