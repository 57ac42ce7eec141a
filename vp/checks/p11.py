"""Order of a column: ascending, descending, constant value, random."""
import pandas as pd
from hypothesis import strategies as st

from vp import gens, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P11", "at least two different values (several batches for the batch rules)",
            ["over batches and merges a column is all numbers or all texts that are not numbers"])

num = st.one_of(gens.small_int.map(str), st.integers(-30, 30).map(str), gens.dec_cell,
                st.sampled_from(["9", "10", "100", "-9", "-10", "1e2", "2e1", "0.5", "9.5", "1.0", "01"]))
# numbers which differ in their last digits only
close = st.one_of(st.integers(0, 40).map(lambda i: str(10**9 + i)), st.integers(0, 40).map(lambda i: "0.12345678%02d" % i))
nums = st.sampled_from([num, close, num])
txt = st.one_of(gens.text_cell, st.sampled_from(["a", "b", "B", "aa", "ab", "é", "z9", "z10", "x 1"]))


@st.composite
def shaped(draw, cell, key, minn=1, maxn=10):
    xs = draw(st.lists(cell, min_size=minn, max_size=maxn))
    how = draw(st.integers(0, 6))
    if how in (0, 1):
        xs = sorted(xs, key=key)
    elif how == 2:
        xs = sorted(xs, key=key, reverse=True)
    elif how == 3:
        xs = [xs[0]] * len(xs)
    elif how == 4 and len(xs) > 2:  # sorted but for one cell
        xs = sorted(xs, key=key)
        i, j = draw(st.integers(0, len(xs) - 1)), draw(st.integers(0, len(xs) - 1))
        xs[i], xs[j] = xs[j], xs[i]
    return xs


def exact(vals):
    if all(a == b for a, b in zip(vals, vals[1:])):
        return "constant value"
    if all(a <= b for a, b in zip(vals, vals[1:])):
        return "ascending"
    if all(a >= b for a, b in zip(vals, vals[1:])):
        return "descending"
    return "random"


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def value(kind):
    return float if kind == "num" else str


# row labels of frames which were sorted, filtered, joined
INDEX = {"default": lambda i: i, "reversed": lambda i: -i, "gaps": lambda i: 10 * i, "shuffled": lambda i: i * 7919 % 1000003, "text": lambda i: "r%d" % (i * 31 % 1000003)}


@st.composite
def one(draw):
    kind = draw(st.sampled_from(["num", "txt", "mix"]))
    cell, key = (draw(nums), float) if kind == "num" else (txt if kind == "txt" else st.one_of(num, num, num, txt), str)
    api, index = draw(st.integers(0, 3)), draw(st.sampled_from(sorted(INDEX)))
    xs = draw(shaped(cell, key, 1, 14))
    if kind == "mix" and not any(number(x) is None for x in xs):  # compared as numbers
        kind = "num"
    return {"kind": kind, "cells": xs, "api": api, "index": index, "swell": draw(util.SWELL),
            "nulls": draw(st.lists(st.tuples(st.integers(0, 20), gens.null_cell), max_size=3))}


@PROP.sub("one-pass", one(), quick=900, thorough=20000)
def one_pass(case, ctx):
    from dataprofiler.profilers import OrderColumn

    case["cells"] = util.swell(case["cells"], case.get("swell"))
    vals = [value(case["kind"])(c) for c in case["cells"]]
    want = exact(vals)
    if case["api"] == 0:
        cells = list(case["cells"])
        for i, v in case["nulls"]:
            cells.insert(i % (len(cells) + 1), v)
        df = util.frame([cells])
        df.index = [INDEX[case["index"]](i) for i in range(len(df))]
        got = util.report(util.profile(df))["data_stats"][0]["order"]
        ctx.label("api index:" + case["index"])
    else:
        got = OrderColumn("a").update(pd.Series(case["cells"], dtype=object)).profile["order"]
    ctx.check(got == want, "order", lambda: "%r, exact %r for %r" % (got, want, case["cells"]))
    ctx.label(want)
    ctx.nt(len(set(vals)) > 1)


@PROP.sub("sampled", st.fixed_dictionaries({
    "index": st.sampled_from(sorted(INDEX)), "down": st.booleans(), "text": st.booleans(), "nulls": st.integers(0, 3),
    "size": st.sampled_from([5001, 9000, 26000, 60000]), "min_true": st.sampled_from([0, 0, 100]), "swap": st.booleans(), "seed": st.integers(0, 99)}),
    quick=40, thorough=600)
def sampled(case, ctx):
    """the rows of a sample are in the order of the data"""
    n = case["size"]
    cells = [("k%07d" if case["text"] else "%d") % i for i in range(n)]
    if case["down"]:
        cells.reverse()
    if case["swap"]:
        cells = cells[n // 2:] + cells[:n // 2]
    for i in range(case["nulls"] * 50):
        cells[(i * 97) % n] = ""
    df = util.frame([cells])
    df.index = [INDEX[case["index"]](i) for i in range(n)]
    dp.set_seed(case["seed"])
    p = util.profile(df, samples_per_update=None, min_true_samples=case["min_true"])
    got = util.report(p)["data_stats"][0]["order"]
    want = "random" if case["swap"] else "descending" if case["down"] else "ascending"
    ctx.check(got == want, "order of a sample", lambda: "%r, exact %r for %r" % (got, want, case))
    ctx.label("%s index:%s" % (want, case["index"]))
    ctx.nt()


def apart(vals):
    rs = sorted((min(x), max(x)) for x in vals)
    return all(a[1] <= b[0] for a, b in zip(rs, rs[1:]))


@st.composite
def many(draw):
    kind = draw(st.sampled_from(["num", "txt"]))
    cell, key = (draw(nums), float) if kind == "num" else (txt, str)
    how, api = draw(st.sampled_from(["no", "no", "all", "mixed", "tail"])), draw(st.integers(0, 5))
    shape = draw(st.integers(0, 2))
    if shape == 0:  # batches of one direction next to each other, in any order
        down, perm = draw(st.booleans()), draw(st.permutations(range(4)))
        w = draw(st.lists(st.integers(2, 5), min_size=2, max_size=4))
        xs = sorted(draw(st.lists(cell, min_size=sum(w), max_size=sum(w))), key=key)
        bs = [xs[sum(w[:i]):sum(w[:i + 1])][::-1 if down else 1] for i in perm if i < len(w)]
    elif shape == 1:  # a globally shaped column, cut
        xs = draw(shaped(cell, key, 2, 16))
        cuts = sorted(draw(st.lists(st.integers(1, len(xs) - 1), min_size=1, max_size=3, unique=True)))
        bs = [xs[a:b] for a, b in zip([0] + cuts, cuts + [len(xs)])]
    else:
        bs = draw(st.lists(shaped(cell, key, 1, 6), min_size=2, max_size=4))
    return {"kind": kind, "bs": bs, "how": how, "api": api, "swell": draw(util.SWELL)}


@PROP.sub("batches", many(), quick=1600, thorough=40000)
def batches(case, ctx):
    from dataprofiler.profilers import OrderColumn

    from vp.checks.p08 import build

    bs = case["bs"]
    bs[0] = util.swell(bs[0], case.get("swell"))
    if case["api"] == 0:
        p = build(bs, case["how"], lambda b: util.profile(util.frame([b])),
                  lambda p, b: p.update_profile(util.frame([b])))
        got = util.report(p)["data_stats"][0]["order"]
        ctx.label("api")
    else:
        p = build(bs, case["how"], lambda b: OrderColumn("a").update(pd.Series(b, dtype=object)),
                  lambda p, b: p.update(pd.Series(b, dtype=object)))
        got = p.profile["order"]
    v = value(case["kind"])
    vals = [[v(c) for c in b] for b in bs]
    kinds = [exact(x) for x in vals]
    whole = exact([x for b in vals for x in b])
    ctx.check(got in ("ascending", "descending", "constant value", "random"), "order value", repr(got))

    def must(want, why):
        ctx.label(why)
        ctx.check(got == want, "order: " + why, lambda: "%r, expected %r for %r" % (got, want, bs))

    if "random" in kinds:
        must("random", "a batch without order")
    elif "ascending" in kinds and "descending" in kinds:
        must("random", "opposite batches")
    elif whole == "constant value":
        must("constant value", "one value throughout")
    elif whole in ("ascending", "descending") and whole in kinds:
        must(whole, "monotone throughout")
    elif len(bs) == 2 and kinds[0] == kinds[1] and kinds[0] in ("ascending", "descending"):
        (l1, h1), (l2, h2) = [(min(x), max(x)) for x in vals]
        if max(l1, l2) < min(h1, h2):
            must("random", "two overlapping batches")
        else:
            must(kinds[0], "two disjoint batches")
    elif len(set(kinds)) == 1 and kinds[0] != "constant value" and apart(vals):
        must(kinds[0], "several disjoint batches")
    elif len(bs) == 2 and "constant value" in kinds and kinds[0] != kinds[1]:
        c, m = (0, 1) if kinds[0] == "constant value" else (1, 0)
        if min(vals[m]) < vals[c][0] < max(vals[m]):
            must("random", "a constant within the range of a batch")
        else:
            must(kinds[m], "a constant outside the range of a batch")
    else:
        # several batches of one direction: piecewise ordered or random, never the opposite
        d = [k for k in kinds if k != "constant value"]
        ctx.label("piecewise")
        ctx.check(got in (d[:1] or ["constant value"]) + ["random"], "order direction", lambda: "%r for %r" % (got, bs))
    ctx.nt(len({x for b in vals for x in b}) > 1)
