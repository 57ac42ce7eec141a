"""Date columns: recognised formats, earliest and latest instants."""
import datetime

import pandas as pd
from hypothesis import strategies as st

from vp import gens, util
from vp.core import Prop
from vp.dates import FORMATS, parses
from vp.sut import dp

PROP = Prop("P10", "at least two different instants, in at least two formats or two batches",
            ["dates between 1970 and 2068 (two-digit years are unambiguous there)",
             "a text written in several formats (May; month-day-year digits) may be credited to any of them"])


def render(dt, f, suffix):
    s = dt.strftime(f)
    if suffix and f in ("%b %d, %Y", "%B %d, %Y"):
        d = dt.day
        suf = "th" if 10 <= d <= 20 else {1: "st", 2: "nd", 3: "rd"}.get(d % 10, "th")
        s = s.replace("%02d," % d, "%d%s," % (d, suf))
    return s


cell = st.tuples(
    st.one_of(st.datetimes(min_value=datetime.datetime(1970, 1, 1), max_value=datetime.datetime(2068, 12, 31)),
              st.datetimes(min_value=datetime.datetime(2000, 4, 28), max_value=datetime.datetime(2000, 5, 3))),
    st.integers(0, len(FORMATS) - 1), st.booleans()).map(lambda t: render(t[0], FORMATS[t[1]], t[2]))


@st.composite
def cases(draw):
    fs = draw(st.lists(st.integers(0, len(FORMATS) - 1), min_size=1, max_size=3))
    c = st.tuples(st.one_of(st.datetimes(min_value=datetime.datetime(1970, 1, 1),
                                         max_value=datetime.datetime(2068, 12, 31)),
                            st.datetimes(min_value=datetime.datetime(2000, 4, 28),
                                         max_value=datetime.datetime(2000, 5, 3))),
                  st.sampled_from(fs), st.booleans()).map(lambda t: render(t[0], FORMATS[t[1]], t[2]))
    return {"how": draw(st.sampled_from(["no", "no", "all", "mixed", "tail"])), "api": draw(st.booleans()),
            "swell": draw(util.SWELL), "bulk": draw(st.sampled_from([0, 0, 0, 0, 70])),
            "bs": draw(st.lists(st.one_of(st.lists(st.one_of(c, c, c, gens.null_cell), min_size=1, max_size=10),
                                          st.lists(c, min_size=1, max_size=2), st.lists(gens.null_cell, min_size=1, max_size=2)),
                                min_size=draw(st.sampled_from([2, 3, 1])), max_size=4))}


@PROP.sub("dates", cases(), quick=900, thorough=18000)
def dates(case, ctx):
    from dataprofiler.profilers import DateTimeColumn

    from vp.checks.p08 import build

    bs = [list(b) for b in case["bs"]]
    bs[0] = util.swell(bs[0], case.get("swell"))
    if case["bulk"]:
        d0 = datetime.datetime(2010, 1, 1)
        bs[0] = bs[0] + [(d0 + datetime.timedelta(days=37 * i)).strftime("%Y-%m-%d") for i in range(case["bulk"])]
    live = [[c for c in b if parses(c)] for b in bs]
    cells = [c for b in live for c in b]
    if case["api"]:
        p = build(bs, case["how"], lambda b: util.profile(util.frame([b])),
                  lambda p, b: p.update_profile(util.frame([b])))
        d = util.report(p)["data_stats"][0]
        if not cells:
            ctx.check(d["data_type"] is None, "no dates", "")
            return
        ctx.check(d["data_type"] == "datetime", "data_type", lambda: "%r for %r" % (d["data_type"], cells[:10]))
        s = d["statistics"]
    else:
        p = build(live, case["how"], lambda b: DateTimeColumn("a").update(pd.Series(b, dtype=object)),
                  lambda p, b: p.update(pd.Series(b, dtype=object)))
        s = p.profile
        if not cells:
            ctx.check(s["min"] is None and s["max"] is None, "no dates", "")
            return
        ctx.check(p.data_type_ratio == 1.0, "ratio", lambda: "%r for %r" % (p.data_type_ratio, cells[:10]))
    inst = {c: {t for _, t in parses(c)} for c in cells}
    allf = set()
    must = set()
    for c in cells:
        fs = {f for f, _ in parses(c)}
        allf |= fs
        if len(fs) == 1:
            must |= fs
    got = set(s["format"])
    ctx.check(len(got) == len(s["format"]), "format repeated", lambda: repr(s["format"]))
    ctx.check(must <= got <= allf, "formats", lambda: "%r, must hold %r, may hold %r for %r" % (got, must, allf,
                                                                                            cells[:10]))
    for c in cells:
        ctx.check(got & {f for f, _ in parses(c)}, "format of cell", lambda: "%r in none of %r" % (c, got))
    amb = any(len(v) > 1 for v in inst.values())
    if amb:
        ctx.label("ambiguous")
        return
    lo = min(min(v) for v in inst.values())
    hi = max(max(v) for v in inst.values())
    for k, want in (("min", lo), ("max", hi)):
        ctx.check(s[k] in inst, k + " is a cell", lambda: repr(s[k]))
        ctx.check(want in inst[s[k]], k, lambda: "%r, exact %r of %r" % (s[k], want, cells[:12]))
    ctx.label("formats:%d" % len(got))
    ctx.label("api" if case["api"] else "column")
    ctx.nt(lo < hi and (len(got) > 1 or len(bs) > 1))
