"""P24: graphs are read from edge lists as written, and profiled as they are."""
import csv
import io
import math
import os
import tempfile

import networkx as nx
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vp import sut, ref
from vp.core import Prop
from vp.sut import dp
from dataprofiler.data_readers.graph_data import GraphData  # noqa: E402
from dataprofiler.profilers.graph_profiler import GraphProfiler  # noqa: E402

PROP = Prop("P24", "at least three edges and a node which two of them share, or more than one component",
            ["undirected simple graphs, self loops included; numeric edge attributes with text names",
             "edge lists have a source and a destination for every edge; a repeated edge keeps its last attributes",
             "the distribution families are those of the documentation, fitted by scipy with its default settings"])

ATTR = ["weight", "count", "w2", "É", "a b"]
WHOLE = st.integers(-50, 50)
FRAC = st.integers(-400, 400).map(lambda v: v + 0.25)
CAND = [ss.norm, ss.uniform, ss.expon, ss.logistic, ss.lognorm, ss.gamma]
NODE = st.one_of(st.integers(0, 9), st.integers(-3, 30), st.sampled_from(["a", "b", "x y", "n1", "É"]))


@st.composite
def edges(draw, lo=0, hi=14, node=NODE, ragged=True, attrs=ATTR):
    names = draw(st.lists(st.sampled_from(attrs), max_size=3, unique=True))
    gens = {a: draw(st.sampled_from([WHOLE, FRAC, st.one_of(WHOLE, FRAC), st.sampled_from([0.5, 1.5])])) for a in names}
    drop = ragged and draw(st.integers(0, 3)) == 0
    pool = draw(st.lists(node, min_size=1, max_size=9, unique_by=str))
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        at = {a: draw(g) for a, g in gens.items() if not (drop and draw(st.integers(0, 2)) == 0)}
        out.append([draw(st.sampled_from(pool)), draw(st.sampled_from(pool)), at])
    return {"edges": out, "nodes": pool if draw(st.integers(0, 2)) == 0 else []}


def build(c):
    g = nx.Graph()
    g.add_nodes_from(c["nodes"])
    for u, v, at in c["edges"]:
        g.add_edge(u, v, **at)
    return g


def model(c):
    """node set, edges as {pair: attributes}, components by union-find"""
    nodes = list(dict.fromkeys(list(c["nodes"]) + [x for u, v, _ in c["edges"] for x in (u, v)]))
    es = {}
    for u, v, at in c["edges"]:
        es.setdefault(frozenset((u, v)), {}).update(at)
    parent = {n: n for n in nodes}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for e in es:
        a, b = min(e, key=str), max(e, key=str)
        parent[find(a)] = find(b)
    comp = {}
    for n in nodes:
        comp.setdefault(find(n), [0, 0])[0] += 1
    for e in es:
        comp[find(next(iter(e)))][1] += 1
    return nodes, es, list(comp.values())


def judge_fit(ctx, name, got, vals):
    dist = {d.name: d for d in CAND}
    ctx.check(got["name"] in dist, "family", lambda: repr(got))
    fit = got["properties"]["best_fit_properties"]
    arr = np.array(vals, dtype=float)
    own = dist[got["name"]].nnlf(tuple(fit), arr)
    ctx.check(ref.close(own, got["scale"], rel=1e-6, abs_=1e-6) or own == got["scale"], "likelihood",
              lambda: "%s: reported %r, of the reported parameters %r" % (name, got["scale"], own))
    for d in CAND:
        if d not in (ss.norm, ss.uniform, ss.expon):
            continue  # fitted by an optimiser, whose result may depend on the order of the values
        best = d.nnlf(d.fit(arr), arr)
        ctx.check(not best < got["scale"] - 1e-6 * max(1, abs(best)), "best fit", lambda: "%s: %s with %r, but %s has %r" % (
            name, got["name"], got["scale"], d.name, best))
    want = [float(x) for x in dist[got["name"]].stats(*fit, moments="mvsk")]
    have = [got["properties"][k] for k in ("mean", "variance", "skew", "kurtosis")]
    flat = [float(x[0]) if isinstance(x, list) and len(x) == 1 else x for x in have]
    return flat, want, [list(np.atleast_1d(x)) for x in dist[got["name"]].stats(tuple(fit), moments="mvsk")]


def judge(ctx, r, c, moments=True):
    nodes, es, comp = model(c)
    n, m = len(nodes), len(es)
    ctx.check(r["num_nodes"] == n and r["num_edges"] == m, "size", lambda: "%r nodes, %r edges; the graph has %d, %d" % (
        r["num_nodes"], r["num_edges"], n, m))
    ctx.check(ref.close(r["avg_node_degree"], 2 * m / n), "degree", lambda: "%r, is %r" % (r["avg_node_degree"], 2 * m / n))
    top = max(x[0] for x in comp)
    ctx.check(r["global_max_component_size"] in {x[1] for x in comp if x[0] == top}, "component", lambda: "%r of %r" % (
        r["global_max_component_size"], comp))
    values = {}
    for at in es.values():
        for k, v in at.items():
            values.setdefault(k, []).append(v)
    cat = {k for k, v in values.items() if any(float(x).is_integer() for x in v)}
    ctx.check(sorted(r["categorical_attributes"]) == sorted(cat), "categorical", lambda: "%r, values %r" % (
        r["categorical_attributes"], values))
    ctx.check(sorted(r["continuous_attributes"]) == sorted(set(values) - cat), "continuous", lambda: "%r, values %r" % (
        r["continuous_attributes"], values))
    cd, kd = r["continuous_distribution"], r["categorical_distribution"]
    ctx.check(set(cd) == set(values) == set(kd), "distributions", lambda: "%r %r, values %r" % (cd, kd, values))
    odd = []
    for k, v in values.items():
        if k in cat:
            ctx.check(cd[k] is None and kd[k] is not None, "kind of distribution", lambda: "%r %r" % (cd[k], kd[k]))
            counts, be = kd[k]["bin_counts"], kd[k]["bin_edges"]
            ctx.check(len(be) == len(counts) + 1 and all(a < b for a, b in zip(be, be[1:])) and sum(counts) == len(v), "bins",
                      lambda: "%r for %r" % (kd[k], v))
            own = [sum(1 for x in v if lo <= x < hi or (i == len(counts) - 1 and x == hi)) for i, (lo, hi) in enumerate(zip(be, be[1:]))]
            ctx.check(own == [int(x) for x in counts], "bin counts", lambda: "%r for %r" % (kd[k], v))
            if min(v) < max(v):
                ctx.check(be[0] == min(v) and be[-1] == max(v), "bin range", lambda: "%r for %r" % (kd[k], v))
        else:
            ctx.check(kd[k] is None and cd[k] is not None, "kind of distribution", lambda: "%r %r" % (cd[k], kd[k]))
            odd.append((k, v) + judge_fit(ctx, k, cd[k], v))
    if moments:
        for k, v, have, want, tup in odd:
            for h, w, t in zip(have, want, tup):
                ok = not isinstance(h, list) and (ref.close(h, w, rel=1e-6) or str(h) == str(w))
                known = isinstance(h, list) and str([float(x) for x in h]) == str([float(x) for x in t])
                ctx.check(ok, "moments of the parameter tuple" if known else "moments", lambda: "%s %r: %r, of the fitted "
                          "distribution %r" % (k, cd[k]["name"], h, w))


def interesting(c):
    nodes, es, comp = model(c)
    return len(comp) > 1 or len(es) >= 3


@PROP.sub("profile", st.fixed_dictionaries({"g": edges(), "how": st.sampled_from(["init", "update", "data"])}), quick=500, thorough=4000)
def run_profile(c, ctx):
    g = build(c["g"])
    if not len(g):
        return
    before = (dict(g.nodes), [(u, v, dict(a)) for u, v, a in g.edges(data=True)])
    if c["how"] == "update":
        p = GraphProfiler(None)
        p.update(g)
    else:
        p = dp.Profiler(g if c["how"] == "init" else GraphData(data=g))
    ctx.check(before == (dict(g.nodes), [(u, v, dict(a)) for u, v, a in g.edges(data=True)]), "input changed", "")
    ctx.check(isinstance(p, GraphProfiler) and p.sample_size == g.size(), "sample size", lambda: repr(p.sample_size))
    full = p.report()
    kept = {k: full[k] for k in full if k != "times"}
    part = p.report(remove_disabled_flag=True)
    ctx.check(plain({k: part[k] for k in part if k != "times"}) == plain(kept), "only-enabled report", lambda: "%r / %r" % (part, kept))
    judge(ctx, p.report(), c["g"])
    ctx.nt(interesting(c["g"]))


@PROP.sub("large", st.fixed_dictionaries({"n": st.integers(200, 900), "seed": st.integers(0, 2 ** 20), "k": st.sampled_from([1.0, 20.0, 900.0]),
                                          "kind": st.sampled_from(["normal", "expo", "uniform"]), "two": st.booleans()}), quick=24, thorough=200)
def run_large(c, ctx):
    rng = np.random.RandomState(c["seed"])
    vals = {"normal": rng.normal(0, c["k"], c["n"]), "expo": rng.exponential(c["k"], c["n"]), "uniform": rng.rand(c["n"]) * c["k"]}[c["kind"]]
    small = rng.rand(c["n"]) * 1e-3
    es = []
    for i in range(c["n"]):
        at = {"w": float(vals[i]) + 1e-7}
        if c["two"]:
            at["v"] = float(small[i]) + 1e-7
        es.append([i, i + 1 if rng.rand() < 0.8 else int(rng.randint(0, c["n"])), at])
    case = {"nodes": [], "edges": es}
    judge(ctx, dp.Profiler(build(case)).report(), case, moments=False)
    ctx.nt(True)


def quiet(d):
    """a difference which says that nothing differs"""
    if isinstance(d, dict):
        return all(quiet(v) for k, v in d.items() if k not in ("mean", "variance", "skew", "kurtosis"))  # known finding: may be nan
    if isinstance(d, list):
        return len(d) == 3 and not d[0] and not d[2] and quiet(d[1])
    return d == "unchanged"


@PROP.sub("diff", st.fixed_dictionaries({"a": edges(lo=1, ragged=False, attrs=ATTR[:2]), "b": edges(lo=1, ragged=False, attrs=ATTR[:2]),
                                         "same": st.booleans()}), quick=250, thorough=2000)
def run_diff(c, ctx):
    b = c["a"] if c["same"] else c["b"]
    pa, pb = dp.Profiler(build(c["a"])), dp.Profiler(build(b))
    ra, rb = pa.report(), pb.report()
    d, e = pa.diff(pb), pb.diff(pa)
    d.pop("times"), e.pop("times")
    if c["same"]:
        ctx.check(quiet(d), "same", lambda: repr(d))
    for k in ("num_nodes", "num_edges", "avg_node_degree", "global_max_component_size"):
        want = ra[k] - rb[k]
        ctx.check(d[k] == ("unchanged" if want == 0 else want), k, lambda: "%r: %r / %r" % (d[k], ra[k], rb[k]))
        ctx.check(e[k] == ("unchanged" if want == 0 else -want), k + " reversed", lambda: "%r / %r" % (d[k], e[k]))
    for k in ("categorical_attributes", "continuous_attributes"):
        x, y = set(ra[k]), set(rb[k])
        if x == y:
            ok = d[k] == "unchanged"
        else:
            ok = [set(v) for v in d[k]] == [x - y, x & y, y - x]
        ctx.check(ok, k, lambda: "%r: %r / %r" % (d[k], ra[k], rb[k]))
    for k in ("categorical_distribution", "continuous_distribution"):
        x, y = ra[k], rb[k]
        if d[k] == "unchanged":
            ctx.check(str(x) == str(y) or sorted(map(str, x.items())) == sorted(map(str, y.items())), k, lambda: "%r / %r" % (x, y))
        else:
            # x == y may hold with the keys in another order, and then the difference has nothing to say
            ctx.check(set(d[k][0]) == set(x) - set(y) and set(d[k][2]) == set(y) - set(x) and set(d[k][1]) == set(x) & set(y)
                      if isinstance(d[k], list) else set(d[k]) == set(x) & set(y), k, lambda: "%r: %r / %r" % (d[k], x, y))
    ctx.nt(not c["same"] and interesting(c["a"]))


def plain(o):
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return repr(o)


@PROP.sub("save", st.fixed_dictionaries({"g": edges(lo=1), "again": st.booleans()}), quick=120, thorough=1000)
def run_save(c, ctx):
    p = dp.Profiler(build(c["g"]))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "g.pkl")
        before = plain(p.report())
        p.save(path)
        ctx.check(plain(p.report()) == before, "saving changed the profile", "")
        q = GraphProfiler.load(path)
        if c["again"]:
            q.save(path)
            q = GraphProfiler.load(path)
    ctx.check(plain(q.report()) == before and q.sample_size == p.sample_size and q.metadata == p.metadata, "loaded",
              lambda: "%r / %r" % (plain(q.report()), before))
    d = q.diff(p)
    ctx.check(quiet(d), "diff of loaded", lambda: repr(d))
    judge(ctx, q.report(), c["g"], moments=False)
    q.update(build(c["g"]))
    judge(ctx, q.report(), c["g"], moments=False)
    ctx.nt(interesting(c["g"]))


SRC = ["node_id_src", "source_node", "src-node", "node.origin"]
DST = ["node_id_dst", "target_node", "dst-node", "node.destination"]


@st.composite
def edge_list(draw):
    ints = draw(st.booleans())
    small = {"src": draw(st.sampled_from(SRC)), "dst": draw(st.sampled_from(DST)),
             "delim": draw(st.sampled_from([",", ",", "\t", ";", "|"])), "head": draw(st.sampled_from([0, 0, 0, 1, 3])),
             "blank": draw(st.integers(0, 3)) == 0, "space": draw(st.integers(0, 3)) == 0}
    node = st.integers(-20, 200) if ints else st.one_of(st.integers(-9, 99), st.sampled_from(["alice", "bob", "x1", "New York", "é", "a,b"]))
    c = draw(edges(lo=5, hi=14, node=node, ragged=False, attrs=["weight", "count", "w2"]))
    c["nodes"] = []
    cols = ["s", "d"] + [a for a in (list(c["edges"][0][2]))]
    cols = draw(st.permutations(cols))
    return dict(small, g=c, cols=list(cols))


def table_text(t, delim=None, head=None):
    buf = io.StringIO()
    w = csv.writer(buf, delimiter=delim or t["delim"], lineterminator="\n")
    for i in range(t["head"] if head is None else head):
        buf.write("comment %d\n" % i)
    name = {"s": t["src"], "d": t["dst"]}
    w.writerow([name.get(k, k) for k in t["cols"]])
    for u, v, at in t["g"]["edges"]:
        pad = " " if t["space"] else ""
        w.writerow([str({"s": u, "d": v}.get(k, at.get(k))) + pad for k in t["cols"]])
    if t["blank"]:
        buf.write("\n")
    return buf.getvalue()


def judge_graph(ctx, g, t, what=""):
    nodes, es, _ = model(t["g"])
    ctx.check(set(g.nodes) == set(nodes) and len(g) == len(nodes), what + "nodes", lambda: "%r, written %r" % (list(g.nodes), nodes))
    got = {frozenset((u, v)): dict(a) for u, v, a in g.edges(data=True)}
    ctx.check(set(got) == set(es) and g.number_of_edges() == len(es), what + "edges", lambda: "%r, written %r" % (got, es))
    for e in es:
        own = {k: v for k, v in got[e].items() if k in es[e]}
        ctx.check(own == es[e], what + "attributes", lambda: "%r: %r, written %r" % (sorted(map(str, e)), got[e], es[e]))
        ctx.check(set(got[e]) == set(es[e]), what + "foreign attributes", lambda: "%r: %r, written %r" % (sorted(map(str, e)), got[e], es[e]))


@PROP.sub("read", st.fixed_dictionaries({"t": edge_list(), "how": st.sampled_from(["path", "bytes", "stringio"]), "index": st.booleans(),
                                         "again": st.booleans()}), quick=500, thorough=4000)
def run_read(c, ctx):
    t = c["t"]
    s = table_text(t)
    opts = {"delimiter": t["delim"], "header": t["head"], "encoding": "utf-8", "quotechar": '"'}
    if c["index"]:
        opts.update(source_node=t["cols"].index("s"), destination_node=t["cols"].index("d"))
    with tempfile.TemporaryDirectory() as tmp:
        if c["how"] == "path":
            src = os.path.join(tmp, "g.csv")
            with open(src, "w", encoding="utf-8") as f:
                f.write(s)
        else:
            src = io.BytesIO(s.encode("utf-8")) if c["how"] == "bytes" else io.StringIO(s)
        d = GraphData(src, options=dict(opts))
        judge_graph(ctx, d.data, t)
        ctx.check(not hasattr(type(d), "is_structured") or d.data_type == "graph", "type", "")
        if c["again"] and c["how"] == "path":
            other = {"g": {"nodes": [], "edges": [[i * 7 % 30, i * 11 % 31 + 40, {"k": i * 1.75}] for i in range(9)]}, "cols": ["k", "d", "s"], "src": "src_node",
                     "dst": "dst_node", "delim": ",", "head": 0, "blank": False, "space": False}
            path = os.path.join(tmp, "h.csv")
            with open(path, "w") as f:
                f.write(table_text(other))
            d.reload(path, None, {"delimiter": ",", "header": 0, "encoding": "utf-8"})
            judge_graph(ctx, d.data, other, "reloaded ")
            ctx.label("reloaded")
            g = build(t["g"])
            d.reload(None, g, None)
            ctx.check(d.data is g, "reloaded graph", lambda: repr(list(d.data.edges)))
    ctx.nt(interesting(t["g"]))


@PROP.sub("detect", st.fixed_dictionaries({"t": edge_list(), "how": st.sampled_from(["path", "bytes"]), "enc": st.sampled_from(["utf-8", "utf-16"]),
                                           "seed": st.integers(0, 999)}), quick=120, thorough=1000)
def run_detect(c, ctx):
    t = dict(c["t"], delim=",", head=0, blank=False, space=False)
    rng = np.random.RandomState(c["seed"])  # varied cells: the domain of the detection
    t["g"] = {"nodes": [], "edges": [[int(rng.randint(0, 60)), int(rng.randint(0, 60)), {k: float(round(rng.rand() * 100, 2)) for k in t["cols"] if k not in "sd"}]
                                     for _ in range(8)]}
    s = table_text(t)
    with tempfile.TemporaryDirectory() as tmp:
        src = os.path.join(tmp, "g.x")
        with open(src, "w", encoding=c["enc"]) as f:
            f.write(s)
        if c["how"] == "bytes":
            src = io.BytesIO(s.encode(c["enc"]))
        d = dp.Data(src)
        ctx.check(d.data_type == "graph", "type", lambda: "%s for %r" % (d.data_type, s))
        judge_graph(ctx, d.data, t)
        judge(ctx, dp.Profiler(d).report(), t["g"], moments=False)
    ctx.nt(True)


@PROP.sub("guess", st.fixed_dictionaries({"t": edge_list(), "how": st.sampled_from(["path", "bytes"]), "given": st.sampled_from(["", "delimiter", "header", "quotechar"]),
                                          "seed": st.integers(0, 999)}), quick=160, thorough=1200)
def run_guess(c, ctx):
    """A GraphData which is told nothing, or only a part, of how its file is written."""
    t = dict(c["t"], head=0, blank=False, space=False)
    rng = np.random.RandomState(c["seed"])
    t["g"] = {"nodes": [], "edges": [[int(rng.randint(0, 60)), int(rng.randint(0, 60)), {k: float(round(rng.rand() * 100, 2)) for k in t["cols"] if k not in "sd"}]
                                     for _ in range(int(rng.randint(8, 30)))]}
    s = table_text(t)
    opts = {"delimiter": {"delimiter": t["delim"]}, "header": {"header": 0}, "quotechar": {"quotechar": '"'}}.get(c["given"])
    with tempfile.TemporaryDirectory() as tmp:
        src = os.path.join(tmp, "g.csv")
        with open(src, "w", encoding="utf-8") as f:
            f.write(s)
        if c["how"] == "bytes":
            src = io.BytesIO(s.encode("utf-8"))
        judge_graph(ctx, GraphData(src, options=opts).data, t)
    ctx.label("given " + c["given"])
    ctx.nt(True)
