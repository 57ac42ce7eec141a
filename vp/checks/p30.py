"""P30: the plots draw what the profile reports."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")

import warnings  # noqa: E402

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from vp import gens, history, ref, sut, util  # noqa: E402
from vp.core import Prop, Skip  # noqa: E402

PROP = Prop("P30", "a plot with at least two panels (histograms), or with a null type whose rows form at least two runs (missing values)",
            ["matplotlib's Agg backend; bars and rectangles are read from the figure's patches",
             "histograms of up to 1500 bins in total"])

NAMES = [["c0", "c1", "c2", "c3", "c4"], [0, 1, 2, 3, 4], ["Value", "note", "Total", "x y", "Z"], ["a", "a", "B", "a", "b"]]
PICK = st.sampled_from(["all", "names", "inds", "names", "all"])


@st.composite
def hist_case(draw):
    pick = draw(PICK)
    names = draw(st.integers(0, len(NAMES) - 1))
    k = draw(st.sampled_from([2, 3, 5, 1, 4]))
    chosen = draw(st.permutations(range(k)))[: draw(st.integers(1, k))]
    upper, cut, method = draw(st.booleans()), draw(st.integers(0, 3)), draw(st.sampled_from(["auto", 3, "rice", 1]))
    kinds = draw(st.lists(st.sampled_from(["int", "float", "text", "intfloat", "const", "date"]), min_size=k, max_size=k))
    n = draw(st.integers(2, 14))
    cols = []
    for kd in kinds:
        if kd == "const":
            cols.append([draw(gens.dec_cell)] * n)
        else:
            cell = history._cells(kd)
            cols.append(draw(st.lists(st.one_of(cell, cell, cell, cell, st.just("")), min_size=n, max_size=n)))
    return {"pick": pick, "names": names, "chosen": list(chosen), "upper": upper, "cut": cut, "method": method, "cols": cols}


@PROP.sub("histograms", hist_case(), quick=220, thorough=2500)
def run_histograms(c, ctx):
    import matplotlib.pyplot as plt
    from dataprofiler.reports import graphs
    sut.reset()
    names = NAMES[c["names"]][: len(c["cols"])]
    df = util.frame(c["cols"], names)
    opts = util.options(**{"structured_options.*.histogram_and_quantiles.bin_count_or_method": c["method"]}) if c["method"] != "auto" else util.options()
    if c["cut"] and len(df) > 3:
        p = util.profile(df.iloc[: len(df) // 2], opts)
        p.update_profile(df.iloc[len(df) // 2:])
    else:
        p = util.profile(df, opts)
    stats = util.report(p)["data_stats"]
    kw, want = {}, list(range(len(names)))
    if c["pick"] == "names":
        asked = []
        for i in c["chosen"]:
            x = names[i]
            low = x.lower() if isinstance(x, str) else x
            if low not in [a.lower() if isinstance(a, str) else a for a in asked]:
                asked.append((x.upper() if c["upper"] else x) if isinstance(x, str) else x)
        kw["column_names"] = asked
        lows = [a.lower() if isinstance(a, str) else a for a in asked]
        want = [i for i, x in enumerate(names) if (x.lower() if isinstance(x, str) else x) in lows]
    elif c["pick"] == "inds":
        kw["column_inds"] = list(c["chosen"])
        want = sorted(c["chosen"])
    want = [i for i in want if stats[i]["data_type"] in ("int", "float")]
    if sum(len(stats[i]["statistics"]["histogram"]["bin_counts"]) for i in want) > 1500:
        raise Skip  # a bar for each of so many bins takes matplotlib minutes
    ctx.label("pick=" + c["pick"])
    plt.close("all")
    before = dict((k, list(v) if isinstance(v, list) else v) for k, v in kw.items())
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            fig = graphs.plot_histograms(p, **kw)
        ctx.check(kw == before, "arguments", "column list changed by plotting: %r -> %r" % (before, kw))
        if not want:
            ctx.check(fig is None and any("No plots" in str(x.message) for x in w), "no columns", "nothing to plot, yet %r" % fig)
            return
        axs = [a for a in fig.axes if a.axison]
        ctx.check([a.get_title() for a in axs] == [str(names[i]) for i in want], "panels",
                  lambda: "panels %r, wanted %r" % ([a.get_title() for a in axs], [names[i] for i in want]))
        ctx.nt(len(want) > 1)
        for a, i in zip(axs, want):
            h = stats[i]["statistics"]["histogram"]
            counts, edges = [float(x) for x in h["bin_counts"]], [float(x) for x in h["bin_edges"]]
            got = [(b.get_x(), b.get_width(), b.get_height()) for b in a.patches]
            ctx.check(len(got) == len(counts), "bars", lambda: "column %d: %d bars, %d bins" % (i, len(got), len(counts)))
            span = max(abs(edges[0]), abs(edges[-1]), 1e-300)
            for (x, wd, ht), lo, hi, n in zip(got, edges, edges[1:], counts):
                ctx.check(ref.close(ht, n, 1e-9), "heights", lambda: "column %d: bars %r, counts %r" % (i, got, counts))
                ctx.check(abs(x - lo) <= 1e-9 * span and abs(wd - (hi - lo)) <= 1e-9 * span, "places",
                          lambda: "column %d: bars %r, edges %r" % (i, got, edges))
    finally:
        plt.close("all")


@st.composite
def miss_case(draw):
    k = draw(st.integers(1, 4))
    own, sub, title, cut = draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 3))
    names = draw(st.integers(0, len(NAMES) - 1))
    nulls = draw(st.lists(st.sampled_from(["", "nan", "None", "NULL", " ", "NaN", "none", "null"]), min_size=1, max_size=6, unique=True))
    dense = draw(st.booleans())
    n = draw(st.integers(1, 20))
    null = st.sampled_from(nulls)
    cell = st.one_of(null, null, null, st.just("x")) if dense else st.one_of(null, st.just("x"), st.just("7"))
    return {"own": own, "sub": sub, "title": title, "cut": cut, "names": names, "cols": [draw(st.lists(cell, min_size=n, max_size=n)) for _ in range(k)]}


@PROP.sub("missing", miss_case(), quick=300, thorough=4000)
def run_missing(c, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from dataprofiler.reports import graphs
    sut.reset()
    k, n = len(c["cols"]), len(c["cols"][0])
    names = NAMES[c["names"]][:k]
    df = util.frame(c["cols"], names)
    opts = util.options()
    if c["cut"] and n > 1:
        at = min(c["cut"] * n // 4 + 1, n - 1)
        p = util.profile(df.iloc[:at], opts)
        p.update_profile(df.iloc[at:])
    else:
        p = util.profile(df, opts)
    stats = util.report(p)["data_stats"]
    cols = list(range(k))
    plt.close("all")
    try:
        ax = plt.figure().add_subplot(111) if c["own"] else None
        title = "missing" if c["title"] else None
        if c["sub"]:
            cols = [i for i in cols if i % 2 == 0][::-1]
            fig = graphs.plot_col_missing_values([p.profile[i] for i in cols], ax=ax, title=title)
        else:
            fig = graphs.plot_missing_values_matrix(p, ax=ax, title=title)
        if ax is not None:
            ctx.check(fig is ax.figure, "axes", "the given axes were not used")
        a = fig.axes[0]
        ctx.check([t.get_text() for t in a.get_xticklabels()] == ['"%s"' % names[i] for i in cols], "names",
                  lambda: "tick labels %r" % [t.get_text() for t in a.get_xticklabels()])
        ctx.check(a.get_title() == (title or ""), "title", a.get_title)
        ctx.check(len(fig.axes) == 1, "axes", "more than one axes")
        colour, drawn = {}, {}
        for pos, i in enumerate(cols):
            mine = [b for b in a.patches if abs(b.get_x() + b.get_width() / 2 - pos - 0.5) < 1e-6]
            back = [b for b in mine if not b.get_label().startswith('"')]
            ctx.check(len(back) == 1 and back[0].get_height() == n and back[0].get_y() == -0.5, "background",
                      lambda: "column %d of %d rows: %r" % (i, n, back))
            ctx.check(a.patches.index(back[0]) < min([a.patches.index(b) for b in mine if b is not back[0]], default=10**9), "background",
                      "the background hides the null rows of column %d" % i)
            rows = {}
            for b in mine:
                if b is back[0]:
                    continue
                lo, hi = b.get_y() + 0.5, b.get_y() + 0.5 + b.get_height()
                ctx.check(lo == int(lo) and hi == int(hi) and hi > lo, "rectangle", lambda: "rows %r to %r" % (lo, hi))
                rows.setdefault(b.get_label()[1:-1], []).extend(range(int(lo), int(hi)))
                colour.setdefault(b.get_label(), set()).add(b.get_facecolor())
            want = {t: sorted(int(r) for r in rs) for t, rs in stats[i]["statistics"]["null_types_index"].items()}
            rows = {t: sorted(r) for t, r in rows.items()}
            ctx.check(rows == want, "rows", lambda: "column %d: drawn %r, null rows %r (cells %r)" % (i, rows, want, c["cols"][i]))
            ctx.check(sorted(r for rs in rows.values() for r in rs) == [j for j, x in enumerate(c["cols"][i]) if x not in ("x", "7")], "null rows",
                      lambda: "column %d: drawn %r, cells %r" % (i, rows, c["cols"][i]))
            ctx.nt(any(r[-1] - r[0] >= len(r) for r in want.values() if r))
            drawn.update(rows)
        blue = to_rgba("blue")
        ctx.check(all(len(v) == 1 for v in colour.values()), "colours", lambda: "colours %r" % colour)
        flat = [next(iter(v)) for v in colour.values()]
        ctx.check(len(set(flat)) == len(flat) and blue not in flat, "colours", lambda: "colours are not distinct: %r" % colour)
        leg = a.get_legend()
        texts = [t.get_text() for t in leg.get_texts()] if leg else []
        ctx.check(sorted(texts) == sorted('"%s"' % t for t in drawn), "legend", lambda: "legend %r, null types %r" % (texts, sorted(drawn)))
        handles = getattr(leg, "legend_handles", None) or getattr(leg, "legendHandles", [])
        for t, hd in zip(texts, handles):
            ctx.check({hd.get_facecolor()} == colour[t], "legend colours", lambda: "%s: %r, bars %r" % (t, hd.get_facecolor(), colour[t]))
        lo, hi = a.get_xlim()
        blo, bhi = sorted(a.get_ylim())
        ctx.check(lo <= 0.1 and hi >= len(cols) - 0.1 and blo <= -0.5 and bhi >= n - 0.5, "limits", lambda: "view %r %r" % (a.get_xlim(), a.get_ylim()))
    finally:
        plt.close("all")
