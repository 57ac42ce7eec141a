"""Type inference: representation ratios and the chosen type."""
import math

from hypothesis import strategies as st

from vp import gens, ref, util
from vp.core import Prop
from vp.dates import parses
from vp.sut import dp

PROP = Prop("P09", "cells of at least two types, or several batches",
            ["a batch has at most 50 non-null cells, so that date detection looks at all of them; a batch with fewer than "
             "10% dates counts as having none (documented sampling threshold)"])

INT = st.one_of(gens.int_cell(), st.sampled_from(["0", "-0", "+5", "007", "1.0", "2.000", "1e3", "-4e2", " 8 ", "5.",
                                                   "99999999999999999999", "120e-1"]))
FLT = st.one_of(gens.dec_cell, gens.sci_cell, st.sampled_from(["0.5", ".5", "-.25", "1e-3", "3.0001", "inf", "-inf",
                                                                "Infinity", " 2.5", "1E-5", "+7.25"]))
TXT = st.one_of(gens.text_cell, st.sampled_from(["1,000", "$5", "5%", "1.2.3", "--5", "12a", "0x1F", "1/2", "e5", "1e",
                                                  "True", "N", "five", "5-6", "1 2", "٣x", "é"]))
DATE = st.one_of(gens.date_cell(), st.sampled_from(["Mar 11, 2013", "March 9, 2013", "2013-03-06T15:43:30",
                                                    "3/8/2013", "12Mar13", "June 3rd, 2011", "20130306T154330"]))
ODD = st.sampled_from(["13/13/2013", "2013-13-01", "2013-02-30", "Mar 32, 2013", "03142013", "12312020", "1232013"])
KIND = {"int": INT, "float": FLT, "text": TXT, "date": DATE, "odd": ODD, "null": gens.null_cell}


@st.composite
def cases(draw):
    long = draw(st.sampled_from([0, 0, 255, 0, 256, 254, 300]))
    off = draw(st.sampled_from([[], [], [], ["int"], ["datetime"], ["int", "float"], ["text"], ["datetime", "text"]]))
    how = draw(st.sampled_from(["no", "all", "no", "mixed", "tail"]))
    kinds = draw(st.lists(st.sampled_from(["int", "int", "float", "float", "text", "date", "odd", "null"]), min_size=1,
                          max_size=3, unique=True))
    nb = draw(st.integers(1, 4))
    cell = st.one_of([KIND[k] for k in kinds])
    bs = []
    for _ in range(nb):
        if draw(st.integers(0, 4)) == 0:  # one odd one out in a longer batch
            k = draw(st.sampled_from(kinds))
            c = draw(KIND[k])
            b = [c] * draw(st.integers(5, 40))
            b.insert(draw(st.integers(0, len(b))), draw(cell))
        else:
            b = draw(st.lists(cell, min_size=1, max_size=12))
        bs.append(b)
    return {"bs": bs, "long": long, "off": off, "how": how}


@PROP.sub("types", cases(), quick=900, thorough=18000)
def types(case, ctx):
    from vp.checks.p08 import build

    bs = [list(b) for b in case["bs"]]
    if case["long"]:
        bs[-1].append("w" * case["long"])
    o = util.options()
    if case["off"]:
        o.set({"structured_options.%s.is_enabled" % t: False for t in case["off"]})
    p = build(bs, case["how"], lambda b: util.profile(util.frame([b]), o),
              lambda p, b: p.update_profile(util.frame([b])))
    d = util.report(p)["data_stats"][0]
    n = ni = nf = nd = 0
    longest = 0
    nulls = {s.lower() for s in ("nan", "none", "null")}
    for b in bs:
        live = [c for c in b if not (c == "" or c.lower() in nulls or (c and set(c) <= {" "} and True) or
                                     (len(c) > 1 and (set(c) == {"-"} or set(c) == {"_"})))]
        m = 0
        for c in live:
            n += 1
            longest = max(longest, len(c))
            try:
                v = float(c)
            except ValueError:
                v = None
            if v is not None:
                nf += 1
                if math.isfinite(v) and v == math.floor(v):
                    ni += 1
            if parses(c):
                m += 1
        if live and m / len(live) >= 0.10:
            nd += m
    rep = d["statistics"].get("data_type_representation")
    if n == 0:
        ctx.check(d["data_type"] is None, "type of nothing", lambda: repr(d["data_type"]))
        return
    tname = "string" if longest <= 255 else "text"
    want = {"datetime": nd / n, "int": ni / n, "float": nf / n, tname: 1.0}
    for t in case["off"]:
        want.pop(tname if t == "text" else t)
    chosen = next((t for t in ("datetime", "int", "float", tname) if want.get(t) == 1.0), None)
    if chosen is None:  # only possible with the text type disabled: nothing is represented
        ctx.check(d["data_type"] is None, "data_type", lambda: "%r, model None" % d["data_type"])
        ctx.label("type:None")
        return
    ctx.check(set(rep or {}) == set(want), "represented types", lambda: "%r, model %r" % (rep, want))
    for t, r in want.items():
        ctx.check(ref.close(rep[t], r, 1e-12), "ratio of %s" % t, lambda: "%r, model %r in %r" % (rep[t], r, bs))
    ctx.check(d["data_type"] == chosen, "data_type", lambda: "%r, model %r (%r)" % (d["data_type"], chosen, want))
    ctx.label("type:%s" % chosen)
    if case["off"]:
        ctx.label("disabled types")
    ctx.nt(len(bs) > 1 or sum(1 for v in want.values() if 0 < v < 1) > 0)


@PROP.sub("bulk", st.fixed_dictionaries({
    "base": st.sampled_from(["int", "float", "date"]), "n": st.sampled_from([300, 1500, 4000, 12000, 30000]),
    "odd": st.lists(st.sampled_from(["abc", "1.5", "7", "2013-03-06", "inf", "1_000x"]), max_size=2),
    "at": st.floats(0, 1, width=16), "how": st.sampled_from(["one", "update", "merge"])}), quick=40, thorough=500)
def bulk(case, ctx):
    """one cell in thousands decides the type"""
    n = case["n"] if case["base"] != "date" else min(case["n"], 1500)
    mk = {"int": lambda i: str(i % 37), "float": lambda i: "%d.5" % (i % 37), "date": lambda i: "2013-03-%02d" % (1 + i % 28)}
    cells = [mk[case["base"]](i) for i in range(n)]
    k = int(case["at"] * n)
    cells[k:k] = case["odd"]
    isdate = case["base"] == "date"
    num = lambda c: not (c in ("abc", "1_000x", "2013-03-06") or c.startswith("2013-"))  # noqa: E731
    ni = sum(1 for c in cells if num(c) and math.isfinite(float(c)) and float(c) == int(float(c)))
    nf = sum(1 for c in cells if num(c))
    o = util.options()

    def prof(c):
        return dp.Profiler(util.frame([c]), options=o, profiler_type="structured", samples_per_update=len(c))

    if case["how"] == "one" or k == 0 or k >= n:
        p = prof(cells)
    elif case["how"] == "merge":
        p = prof(cells[:k]) + prof(cells[k:])
    else:
        p = prof(cells[:k])
        p.update_profile(util.frame([cells[k:]]), sample_size=n + 9)
    d = util.report(p)["data_stats"][0]
    rep, N = d["statistics"]["data_type_representation"], len(cells)
    ctx.check(ref.close(rep["int"], ni / N, 1e-12) and ref.close(rep["float"], nf / N, 1e-12), "bulk ratios",
              lambda: "%r, model int %d, float %d of %d" % (rep, ni, nf, N))
    odd_dates = sum(1 for c in case["odd"] if c != "2013-03-06")
    want = ("datetime" if isdate and not odd_dates else "int" if ni == N else "float" if nf == N else "string")
    if isdate and case["how"] != "one":
        want = None if odd_dates else want
    if want:
        ctx.check(d["data_type"] == want, "bulk data_type", lambda: "%r, model %r" % (d["data_type"], want))
    ctx.label("bulk %s" % case["base"])
    ctx.nt(bool(case["odd"]))
