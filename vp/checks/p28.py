"""P28: validation reports exactly the rows with known anomalies."""
import math
import random

import pandas as pd
from hypothesis import strategies as st

from vp import sut  # noqa: F401
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P28", "a column has both rows which are reported and rows which are not",
            ["cells are numbers or text of numbers, as validation by range and list requires; rows are named by their index label (pandas) or position (dask)"])

NUM = st.one_of(st.integers(-5, 12), st.integers(-5, 12), st.sampled_from([0.5, -0.0, 2.5, 1e300, 3.0000000001, 7.25, -4.75]))
CELL = st.tuples(NUM, st.booleans())
RULE = st.one_of(st.tuples(st.just("range"), st.lists(NUM, min_size=2, max_size=2).map(sorted), st.booleans()),
                 st.tuples(st.just("list"), st.lists(NUM, max_size=4), st.booleans()))
RUN = st.fixed_dictionaries({"cells": st.lists(st.lists(CELL, min_size=3, max_size=3), min_size=1, max_size=12), "rules": st.dictionaries(
    st.sampled_from(["a", "b", "c"]), st.lists(RULE, min_size=1, max_size=2, unique_by=lambda r: r[0]), min_size=1, max_size=3),
    "dask": st.booleans(), "parts": st.integers(1, 3), "case": st.booleans(), "gaps": st.integers(0, 3), "index": st.sampled_from(["", "", "offset", "names", "reverse", "twice"])})


@PROP.sub("validate", st.lists(RUN, min_size=1, max_size=3), quick=1200, thorough=12000)
def run_validate(runs, ctx):
    v = dp.Validator()
    try:
        v.get()
    except Warning:
        pass
    else:
        ctx.fail("results before validation", "")
    some = False
    for r in runs:
        cols = {}
        for j, name in enumerate("abc"):
            vals = [str(row[j][0]) if row[j][1] else row[j][0] for row in r["cells"]]
            if r["gaps"] == 0 and not r["dask"]:
                vals[0] = float("nan")
            cols[name] = vals
        df = pd.DataFrame(cols)
        rows = list(range(len(df)))
        if r["index"] and not r["dask"]:  # pandas rows are reported by their index labels
            rows = [{"offset": i + 7, "names": "r%d" % i, "reverse": len(df) - i, "twice": i // 2}[r["index"]] for i in rows]
            df.index = rows
        data = df
        if r["dask"]:
            import dask.dataframe as dd
            data = dd.from_pandas(df, npartitions=r["parts"])
        config = {"known_anomaly_validation": {}, "df_type": "Dask" if r["dask"] else ("PANDAS" if r["case"] else "pandas")}
        want = {}
        for name, rules in r["rules"].items():
            config["known_anomaly_validation"][name] = {}
            want[name] = {}
            for kind, vals, text in rules:
                if kind == "range":
                    rule = {"start": str(vals[0]) if text else vals[0], "end": vals[1]}
                    hit = [i for i, x in zip(rows, cols[name]) if vals[0] <= float(x) <= vals[1]]
                else:
                    rule = list(vals)
                    hit = [i for i, x in zip(rows, cols[name]) if not math.isnan(float(x)) and any(float(x) == float(y) for y in vals)]
                config["known_anomaly_validation"][name][kind] = rule
                want[name][kind] = hit
                some = some or 0 < len(hit) < len(cols[name])
        before = repr(config), df.copy()
        v.validate(data, config)
        got = v.get()
        ctx.check(got == want, "rows", lambda: "%r, expected %r" % (got, want))
        ctx.check(repr(config) == before[0] and df.equals(before[1]), "input", "changed")
        ctx.label("dask" if r["dask"] else "pandas")
    ctx.nt(some)


@PROP.sub("large", st.fixed_dictionaries({
    "n": st.one_of(st.integers(200, 1200), st.integers(2000, 9000)), "seed": st.integers(0, 2 ** 32), "span": st.sampled_from([3, 40, 100000]),
    "text": st.booleans(), "dask": st.booleans(), "parts": st.integers(1, 9), "pick": st.lists(st.integers(0, 99999), min_size=1, max_size=60),
    "times": st.integers(1, 2), "wide": st.booleans()}), quick=60, thorough=900)
def run_large(c, ctx):
    """thousands of rows, long lists, one configuration used again for other data and changed in between"""
    rng = random.Random(c["seed"])
    v = dp.Validator()
    config = {"known_anomaly_validation": {"a": {}, "b": {}}, "df_type": "dask" if c["dask"] else "pandas"}
    for turn in range(c["times"]):
        nums = {k: [rng.randrange(c["span"]) + (0.5 if c["wide"] and rng.random() < 0.3 else 0) for _ in range(c["n"])] for k in "ab"}
        df = pd.DataFrame({k: [str(x) for x in col] if c["text"] else col for k, col in nums.items()})
        data = df
        if c["dask"]:
            import dask.dataframe as dd
            data = dd.from_pandas(df, npartitions=c["parts"])
        lo, hi = sorted([rng.randrange(c["span"]), rng.randrange(c["span"])])
        items = [x % c["span"] + turn for x in c["pick"]]
        config["known_anomaly_validation"]["a"] = {"range": {"start": lo, "end": hi}, "list": items}
        config["known_anomaly_validation"]["b"] = {"list": items[::-1]}
        v.validate(data, config)
        got = v.get()
        chosen = set(items)
        want = {"a": {"range": [i for i, x in enumerate(nums["a"]) if lo <= x <= hi], "list": [i for i, x in enumerate(nums["a"]) if x in chosen]},
                "b": {"list": [i for i, x in enumerate(nums["b"]) if x in chosen]}}
        for k in want:
            for rule, hit in want[k].items():
                ctx.check(got[k][rule] == hit, rule, lambda: "%d rows reported, %d expected, turn %d; first difference at %r" % (
                    len(got[k][rule]), len(hit), turn, next((p for p in zip(got[k][rule], hit) if p[0] != p[1]), "the end")))
        ctx.check({k: set(x) for k, x in got.items()} == {"a": {"range", "list"}, "b": {"list"}}, "report", lambda: repr({k: list(x) for k, x in got.items()}))
        ctx.nt(0 < len(want["a"]["list"]) < c["n"])
    ctx.label("dask" if c["dask"] else "pandas")


@PROP.sub("refused", st.fixed_dictionaries({
    "how": st.sampled_from(["empty", "none", "no rules", "other rule", "frame type", "no type"]), "first": st.booleans(), "rule": st.sampled_from(
        ["regex", "Range", "lists", "max", ""]), "type": st.sampled_from(["polars", "spark", "numpy", "panda"]), "n": st.integers(1, 5)}), quick=120, thorough=600)
def run_refused(c, ctx):
    """configurations that say nothing to validate are refused; the validator goes on as before"""
    df = pd.DataFrame({"a": list(range(c["n"]))})
    good = {"known_anomaly_validation": {"a": {"list": [0]}}, "df_type": "pandas"}
    v = dp.Validator()
    if c["first"]:
        v.validate(df, good)
    bad = {"empty": {}, "none": None, "no rules": dict(good, known_anomaly_validation={"a": {}}),
           "other rule": dict(good, known_anomaly_validation={"a": {c["rule"]: [0]}}), "frame type": dict(good, df_type=c["type"]),
           "no type": {"known_anomaly_validation": good["known_anomaly_validation"]}}[c["how"]]
    err = {"empty": ValueError, "none": ValueError, "no rules": Warning, "other rule": TypeError}.get(c["how"], ValueError)
    try:
        v.validate(df, bad)
        ctx.fail("accepted", repr(bad))
    except err:
        pass
    if not c["first"]:
        try:
            v.get()
            ctx.fail("results of a refused validation", repr(bad))
        except Warning:
            pass
    v.validate(df, good)
    ctx.check(v.get() == {"a": {"list": [0]}}, "afterwards", lambda: repr(v.get()))
    ctx.label(c["how"])
    ctx.nt(c["n"] > 1)
