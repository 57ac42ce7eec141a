"""P31: the scores of a labeler are those of the labels given and expected."""
import csv
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import ref, sut  # noqa: F401
from vp.core import Prop

PROP = Prop("P31", "at least two labels occur and at least one entity is labelled wrongly",
            ["expected sequences are at most as long as the predicted ones, which have one length (the padded length of the model); "
             "scores which divide by zero count as 0"])

POOL = ["PAD", "UNKNOWN", "ADDRESS", "DATETIME", "INTEGER", "FLOAT", "x y"]
METRICS = ("precision", "recall", "f1-score")


@st.composite
def eval_case(draw):
    k = draw(st.integers(2, 6))
    how, file, verbose = draw(st.integers(0, 3)), draw(st.booleans()), draw(st.booleans())
    right = draw(st.sampled_from([0, 2, 1, 9]))
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 9))
    used = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=k, unique=True))
    lab = st.sampled_from(used)
    true = [draw(st.lists(lab, min_size=0, max_size=m)) for _ in range(n)]
    pred = []
    for t in true:
        t = t + [0] * (m - len(t))
        keep = draw(st.lists(st.integers(0, 10), min_size=m, max_size=m))
        other = draw(st.lists(st.integers(0, k - 1), min_size=m, max_size=m))
        pred.append([a if x <= right else b for a, b, x in zip(t, other, keep)])
    return {"k": k, "how": how, "file": file, "verbose": verbose, "true": true, "pred": pred}


def div(a, b):
    return a / b if b else 0.0


def prf(tp, fp, fn):
    p, r = div(tp, tp + fp), div(tp, tp + fn)
    return {"precision": p, "recall": r, "f1-score": div(2 * p * r, p + r)}


@PROP.sub("evaluate", eval_case(), quick=1500, thorough=20000)
def run_evaluate(c, ctx):
    from dataprofiler.labelers import labeler_utils
    k = c["k"]
    names = {i: POOL[i] for i in range(k)}
    omitted = {0: ("PAD", "UNKNOWN"), 1: (), 2: ("PAD",), 3: ("PAD", POOL[k - 1], "absent")}[c["how"]]
    kept = [i for i in range(k) if names[i] not in omitted]
    kw = {} if c["how"] == 0 else {"omitted_labels": omitted}
    m = len(c["pred"][0])
    pairs = [(t, p) for ts, ps in zip(c["true"], c["pred"]) for t, p in zip(ts + [0] * (m - len(ts)), ps)]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "new", "cm.csv")
        if not kept:
            return
        f1, rep = labeler_utils.evaluate_accuracy([np.array(p) for p in c["pred"]], [np.array(t) for t in c["true"]], k, names, verbose=c["verbose"],
                                                  confusion_matrix_file=path if c["file"] else None, **kw)
        if c["file"]:
            with open(path) as f:
                rows = list(csv.reader(f))
            ctx.check(rows[0][1:] == ["pred:" + names[i] for i in range(k)] and [r[0] for r in rows[1:]] == ["true:" + names[i] for i in range(k)],
                      "confusion names", lambda: repr(rows))
            want = [[str(sum(1 for t, p in pairs if t == i and p == j)) for j in range(k)] for i in range(k)]
            ctx.check([r[1:] for r in rows[1:]] == want, "confusion matrix", lambda: "%r, wanted %r" % (rows, want))
        else:
            ctx.check(not os.path.exists(path), "confusion matrix", "written though not asked for")
    tp = {i: sum(1 for t, p in pairs if t == p == i) for i in kept}
    fp = {i: sum(1 for t, p in pairs if p == i != t) for i in kept}
    fn = {i: sum(1 for t, p in pairs if t == i != p) for i in kept}
    sup = {i: tp[i] + fn[i] for i in kept}
    each = {i: prf(tp[i], fp[i], fn[i]) for i in kept}
    total = sum(sup.values())
    want = {names[i]: dict(each[i], support=sup[i]) for i in kept}
    pos = [i for i in kept if sup[i]]
    # zero-support labels score zero, so the sum over all is the sum over those with support
    macro = {x: (sum(each[i][x] for i in kept) / len(pos) if pos else math.nan) for x in METRICS}
    want["macro avg"] = dict(macro, support=total)
    want["weighted avg"] = dict({x: div(sum(each[i][x] * sup[i] for i in kept), total) for x in METRICS}, support=total)
    if len(kept) == k:
        ctx.label("accuracy")
        want["accuracy"] = div(sum(1 for t, p in pairs if t == p), len(pairs))
    else:
        want["micro avg"] = dict(prf(sum(tp.values()), sum(fp.values()), sum(fn.values())), support=total)
    ctx.nt(len({t for t, _ in pairs}) > 1 and any(t != p for t, p in pairs))
    ctx.label("support=%d of %d" % (len(pos), len(kept)))
    ctx.check(set(rep) == set(want), "rows", lambda: "rows %r, wanted %r" % (sorted(rep), sorted(want)))
    for name, row in want.items():
        if name == "accuracy":
            ctx.check(ref.close(rep[name], row, 1e-12, 1e-12), name, lambda: "%r, wanted %r" % (rep[name], row))
            continue
        ctx.check(set(rep[name]) == set(row), "columns", lambda: repr(rep[name]))
        for x, v in row.items():
            g = rep[name][x]
            ctx.check((math.isnan(v) and math.isnan(g)) or ref.close(g, v, 1e-12, 1e-12), "%s %s" % ("label" if name in POOL else name, x),
                      lambda: "%s of %s: %r, wanted %r (pairs %r)" % (x, name, g, v, pairs))
    ctx.check((math.isnan(f1) and math.isnan(macro["f1-score"])) or ref.close(f1, macro["f1-score"], 1e-12, 1e-12), "score",
              lambda: "%r, wanted %r" % (f1, macro["f1-score"]))
    text = labeler_utils.f1_report_dict_to_str(rep, [names[i] for i in kept])
    lines = {}
    for ln in text.splitlines()[1:]:
        for name in want:
            if ln.strip().startswith(name + " "):
                lines[name] = ln.strip()[len(name):].split()
    for name, row in want.items():
        exp = ["%.2f" % row] if name == "accuracy" else ["%.2f" % rep[name][x] for x in METRICS] + [str(rep[name]["support"])]
        ctx.check(lines.get(name) == exp, "printed report", lambda: "%r: %r, wanted %r" % (name, lines.get(name), exp))


@st.composite
def metric_case(draw):
    k = draw(st.integers(1, 4))
    avg = draw(st.sampled_from([None, "micro", "macro", "weighted"]))
    beta = draw(st.sampled_from([1.0, 0.5, 2.0, None]))
    thr = draw(st.sampled_from([None, 0.5, 0.25, 1.0]))
    weights, multi, kept, reset = draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 2)) == 0
    batches = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(1, 5))
        row = st.lists(st.integers(0, 8), min_size=k, max_size=k)
        pred = draw(st.lists(row, min_size=n, max_size=n))
        if multi:
            true = draw(st.lists(st.lists(st.integers(0, 1), min_size=k, max_size=k), min_size=n, max_size=n))
        else:
            true = [[int(j == t) for j in range(k)] for t in draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))]
        batches.append([pred, true, draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))])
    return {"k": k, "avg": avg, "beta": beta, "thr": thr, "weights": weights, "kept": kept, "reset": reset, "batches": batches}


@PROP.sub("metric", metric_case(), quick=300, thorough=4000)
def run_metric(c, ctx):
    from dataprofiler.labelers import labeler_utils
    k = c["k"]
    if c["beta"] is None:
        m = labeler_utils.F1Score(num_classes=k, average=c["avg"], threshold=c["thr"])
    else:
        m = labeler_utils.FBetaScore(num_classes=k, average=c["avg"], beta=c["beta"], threshold=c["thr"])
    beta = c["beta"] or 1.0
    if c["kept"]:
        m = type(m).from_config(m.get_config())
    if c["reset"]:  # what was seen before a reset does not count
        p, t, w = c["batches"][0]
        m.update_state(np.array(t, dtype="float32"), np.array(p, dtype="float32") / 8)
        (getattr(m, "reset_state", None) or m.reset_states)()
    tp, fp, fn, wt = ([0.0] * k for _ in range(4))
    for p, t, w in c["batches"]:
        m.update_state(np.array(t, dtype="float32"), np.array(p, dtype="float32") / 8,
                       sample_weight=np.array(w, dtype="float32") if c["weights"] else None)
        for pr, tr, x in zip(p, t, w):
            x = x if c["weights"] else 1
            for j in range(k):
                y = pr[j] == max(pr) and pr[j] > 0 if c["thr"] is None else pr[j] / 8 > c["thr"]
                tp[j] += x * (y and tr[j])
                fp[j] += x * (y and not tr[j])
                fn[j] += x * (not y and tr[j])
                wt[j] += x * tr[j]

    def score(a, b, d):
        p, r = div(a, a + b), div(a, a + d)
        return div((1 + beta**2) * p * r, beta**2 * p + r)
    each = [score(*q) for q in zip(tp, fp, fn)]
    want = {None: each, "micro": score(sum(tp), sum(fp), sum(fn)), "macro": sum(each) / k,
            "weighted": sum(e * div(x, sum(wt)) for e, x in zip(each, wt))}[c["avg"]]
    got = np.asarray(m.result()).tolist()
    ctx.nt(any(tp) and (any(fp) or any(fn)))
    ctx.check(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-5, atol=1e-6), "score", lambda: "%r, wanted %r" % (got, want))
    again = np.asarray(m.result()).tolist()
    ctx.check(again == got, "result", "asking for the result changes it")


LONG = st.fixed_dictionaries({"extra": st.sampled_from([1, 0, 3, 2**20, 2**20 + 5, 500000]), "k": st.integers(2, 4), "seed": st.integers(0, 10**6), "rows": st.integers(1, 3)})


@PROP.sub("long", LONG, quick=8, thorough=40)
def run_long(c, ctx):
    """more labels than are counted in one go"""
    from dataprofiler.labelers import labeler_utils
    rng = np.random.RandomState(c["seed"])
    k, n = c["k"], 2**20 + c["extra"]
    rows = c["rows"]
    m = n // rows + 1
    true, pred = rng.randint(0, k, (rows, m)), rng.randint(0, k, (rows, m))
    pred = np.where(rng.rand(rows, m) < 0.5, true, pred)
    true[-1, -1], pred[-1, -1] = k - 1, 0
    ctx.nt()
    _, rep = labeler_utils.evaluate_accuracy(list(pred), list(true), k, {i: POOL[i + 1] for i in range(k)}, verbose=False, omitted_labels=())
    for i in range(k):
        row = rep[POOL[i + 1]]
        tp, sup, given = int(((true == i) & (pred == i)).sum()), int((true == i).sum()), int((pred == i).sum())
        ctx.check(row["support"] == sup, "support", lambda: "label %d: %r, wanted %r" % (i, row["support"], sup))
        ctx.check(ref.close(row["precision"], tp / given, 1e-12) and ref.close(row["recall"], tp / sup, 1e-12), "score", lambda: repr(row))
