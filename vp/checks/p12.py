"""Text vocabulary and decimal precision."""
import math
from fractions import Fraction

import pandas as pd
from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P12", "at least two cells of different precision (or different characters) over at least two batches",
            ["precision is judged on plain decimal notation with an optional exponent 'e'",
             "reported precision figures are rounded to as many significant digits as the largest precision"])

prec_cell = st.one_of(
    gens.dec_cell, gens.dec_cell, gens.plain_int_cell,
    st.tuples(st.sampled_from(["", "-", "+"]), st.integers(0, 10**9), st.integers(0, 12)).map(
        lambda t: t[0] + gens._fmt_dec((t[1], t[2]))),
    st.sampled_from(["0", "0.0", "0.00", "000", "100", "1.00", "1.50", "0.001", "-0.050", "00.10", "1020.30", ".5",
                     "5.", "-0"]),
    st.tuples(st.integers(1, 99), st.integers(0, 99), st.integers(-5, 5)).map(lambda t: "%d.%02de%d" % t)
      .filter(lambda s: not s.split("e")[0].endswith("0")))


def digits(c):
    """significant figures: no leading zeros, no trailing zeros of a fraction or of a whole number without a point"""
    m = c.split("e")[0].lstrip("+-")
    if "." in m:
        whole, frac = m.split(".")
        m = whole + frac.rstrip("0")
    else:
        m = m.rstrip("0")
    return len(m.lstrip("0"))


@PROP.sub("precision", st.fixed_dictionaries({
    "bs": st.lists(st.lists(prec_cell, min_size=1, max_size=12), min_size=1, max_size=4),
    "how": st.sampled_from(["no", "no", "all", "mixed", "tail"]), "bias": st.booleans(),
    "misfit": st.lists(st.sampled_from(["abc", "1,5", "x1", "0x10"]), max_size=2), "api": st.integers(0, 5),
    "ratio": st.sampled_from([None, None, None, 1.0, 0.5])}), quick=1300, thorough=30000)
def precision(case, ctx):
    from dataprofiler.profilers import FloatColumn
    from dataprofiler.profilers.profiler_options import FloatOptions

    from vp.checks.p08 import build

    bs = [list(b) for b in case["bs"]]
    cells = [c for b in bs for c in b]
    ratio = case["ratio"] if case["how"] == "no" or len(bs) < 2 else None
    if case["api"] == 0:
        o = util.set_options({"float.precision.sample_ratio": ratio, "int.is_enabled": False,
                              "datetime.is_enabled": False})
        p = build(bs, case["how"], lambda b: util.profile(util.frame([b]), o),
                  lambda p, b: p.update_profile(util.frame([b])))
        d = util.report(p)["data_stats"][0]
        ctx.check(d["data_type"] == "float", "data_type", lambda: "%r for %r" % (d["data_type"], cells[:10]))
        pr = d["statistics"]["precision"]
        ctx.label("api")
    else:
        for i, m in enumerate(case["misfit"]):
            bs[i % len(bs)].insert(i, m)
        o = FloatOptions()
        o.precision.sample_ratio = ratio
        o.bias_correction.is_enabled = case["bias"]
        p = build(bs, case["how"], lambda b: FloatColumn("a", o).update(pd.Series(b, dtype=object)),
                  lambda p, b: p.update(pd.Series(b, dtype=object)))
        pr = p.profile["precision"]
    ds = [digits(c) for c in cells]
    n = len(ds)
    ctx.check(pr["confidence_level"] == 0.999, "confidence_level", "")
    if ratio is not None and ratio < 1:
        sizes = [max(1, int(len(b) * ratio)) for b in case["bs"]]
        ctx.label("sampled")
        ctx.check(pr["sample_size"] == sum(sizes), "sample_size", lambda: "%r of %r" % (pr["sample_size"], sizes))
        ctx.check(min(ds) <= pr["min"] <= pr["max"] <= max(ds), "sampled range", lambda: repr(pr))
        return
    ctx.check(pr["sample_size"] == n, "sample_size", lambda: "%r of %d" % (pr["sample_size"], n))
    ctx.check(pr["min"] == min(ds) and pr["max"] == max(ds), "range", lambda: "%r, digits %r of %r" % (pr, ds, cells))
    judge(pr, ds, ctx, repr(cells))
    ctx.nt(len(set(ds)) > 1 and len(bs) > 1)


def judge(pr, ds, ctx, what):
    n = len(ds)
    mean = sum(ds) / n
    var = float(sum((Fraction(x) - Fraction(sum(ds), n)) ** 2 for x in ds) / (n - 1)) if n > 1 else float("nan")
    std = math.sqrt(var) if n > 1 else var
    sig = max(1, max(ds))
    tol = 0.5 * 10.0 ** (1 - sig) * 1.0001 + 1e-9
    for k, w in (("mean", mean), ("var", var), ("std", std), ("margin_of_error", 3.291 * std / math.sqrt(n))):
        ctx.check(ref.close(pr[k], w, tol, 1e-12), k,
                  lambda: "%r, exact %r (%d significant) for %s" % (pr[k], w, sig, what))


@PROP.sub("bulk", st.fixed_dictionaries({
    "runs": st.lists(st.tuples(prec_cell, st.one_of(st.integers(1, 3), st.integers(1, 700), st.integers(1000, 9000))),
                     min_size=2, max_size=5),
    "cut": st.integers(0, 3), "merge": st.booleans(), "ratio": st.sampled_from([None, None, None, 0.1, 0.015])}),
    quick=40, thorough=500)
def bulk(case, ctx):
    """a column of thousands of cells: every cell counts up to twenty thousand per batch, and a set ratio is honoured"""
    from dataprofiler.profilers import FloatColumn
    from dataprofiler.profilers.profiler_options import FloatOptions

    cells = [c for c, k in case["runs"] for _ in range(k)]
    at = len(cells) * case["cut"] // 4
    bs = [b for b in (cells[:at], cells[at:]) if b]
    o = FloatOptions()
    o.precision.sample_ratio = case["ratio"]
    if case["merge"] and len(bs) > 1 and case["ratio"] is None:
        x, y = (FloatColumn("a", o).update(pd.Series(b, dtype=object)) for b in bs)
        p = x + y
    else:
        p = FloatColumn("a", o)
        for b in bs:
            p.update(pd.Series(b, dtype=object))
    pr = p.profile["precision"]
    ds = [digits(c) for c in cells]
    what = "%r cut at %d" % (case["runs"], at)
    if case["ratio"] is not None:
        want = sum(max(1, int(len(b) * case["ratio"])) for b in bs)
        ctx.check(pr["sample_size"] == want, "sample_size", lambda: "%r, want %d: %s" % (pr["sample_size"], want, what))
        ctx.check(min(ds) <= pr["min"] <= pr["max"] <= max(ds), "sampled range", lambda: repr(pr))
        return
    want = sum(min(len(b), max(20000, int(len(b) * 0.05))) for b in bs)
    ctx.check(pr["sample_size"] == want, "sample_size", lambda: "%r, want %d: %s" % (pr["sample_size"], want, what))
    if want == len(cells):
        ctx.check(pr["min"] == min(ds) and pr["max"] == max(ds), "range", lambda: "%r: %s" % (pr, what))
        judge(pr, ds, ctx, what)
        ctx.nt(len(cells) > 5000 and len(set(ds)) > 1)
    else:
        ctx.check(min(ds) <= pr["min"] <= pr["max"] <= max(ds), "sampled range", lambda: repr(pr))


@PROP.sub("vocab", st.fixed_dictionaries({
    "bs": st.lists(st.lists(st.one_of(gens.text_cell, st.text(max_size=6).map(lambda s: "w" + "".join(
        ch for ch in s if ch not in "\r\n" and not 0xD800 <= ord(ch) < 0xE000))), min_size=1, max_size=8), min_size=1,
        max_size=4), "how": st.sampled_from(["no", "all", "mixed", "tail"]), "nulls": st.lists(gens.null_cell, max_size=3)}),
    quick=500, thorough=10000)
def vocab(case, ctx):
    """the vocabulary is the set of characters of the non-null cells, each once"""
    from vp.checks.p08 import build

    bs = [list(b) for b in case["bs"]]
    for i, v in enumerate(case["nulls"]):
        bs[i % len(bs)].append(v)
    o = util.set_options({"structured_options.text.vocab.is_enabled": True})
    p = build(bs, case["how"], lambda b: util.profile(util.frame([b]), o),
              lambda p, b: p.update_profile(util.frame([b])))
    d = util.report(p)["data_stats"][0]
    ctx.check(d["data_type"] == "string", "data_type", lambda: repr(d["data_type"]))
    v = d["statistics"]["vocab"]
    want = sorted({ch for b in case["bs"] for c in b for ch in c})
    ctx.check(sorted(v) == want, "vocab", lambda: "%r, exact %r" % (sorted(v), want))
    # the report's pretty/compact view keeps it as well
    ctx.nt(len(bs) > 1 and len(want) > 3)
