"""P19: columns are matched by name; what does not fit is refused and leaves no trace."""
import numpy as np
from hypothesis import strategies as st

from vp import history, ref, sut, util
from vp.checks.p04 import OPTS, snap
from vp.checks.p18 import near
from vp.core import Prop
from vp.sut import dp

PROP = Prop("P19", "columns came in another order or spelling, or an operation was refused",
            ["data labeler off; single process"])

NAMES = [["a", "b", "c", "d"], ["Col", "xyz", "A", "b"], ["b", "a", "d", "c"], [3, 1, 2, 0], ["zz", "0", "É", ""]]


def case_change(name, on):
    return name.swapcase() if on and isinstance(name, str) and name.swapcase().lower() == name.lower() else name


@st.composite
def reorder_case(draw):
    small = {"opt": draw(st.integers(0, len(OPTS) - 1)), "names": draw(st.integers(0, len(NAMES) - 1)),
             "cuts": draw(st.lists(st.floats(0, 1, width=16), min_size=2, max_size=2)),
             "case": draw(st.booleans()), "how": draw(st.sampled_from(["update", "update", "merge", "merge", "mixed"])),
             "reset": draw(st.booleans()), "mts": draw(st.sampled_from([None, None, 2]))}
    perms = [draw(st.permutations(range(4))) for _ in range(2)]
    cols = draw(history.table(min_rows=4, max_rows=14, max_cols=4))
    return dict(small, cols=cols, perms=[[i for i in p if i < len(cols)] for p in perms])


@PROP.sub("reorder", reorder_case(), quick=350, thorough=9000)
def reorder(c, ctx):
    """the order of columns, and for updates the case of their names, in later data makes no difference"""
    names = NAMES[c["names"]][:len(c["cols"])]
    df = util.frame(c["cols"], names)
    n = len(df)
    i, j = sorted(min(n - 1, max(1, int(x * n))) for x in c["cuts"])
    parts = [x.reset_index(drop=True) if c["reset"] else x for x in (df.iloc[:i], df.iloc[i:j], df.iloc[j:])]
    kw = {} if c["mts"] is None else {"min_true_samples": c["mts"]}

    def run(shuffled):
        def arrange(part, which, may_rename):
            if not shuffled:
                return part.copy()
            part = part.iloc[:, c["perms"][which]].copy()
            if c["case"] and may_rename:
                part.columns = [case_change(x, True) for x in part.columns]
            return part

        def mk(part):
            sut.reset()
            return util.profile(part, util.set_options(OPTS[c["opt"]]), **kw)

        p = mk(parts[0].copy())
        for which, part in enumerate(parts[1:]):
            if not len(part):
                continue
            merge = c["how"] == "merge" or (c["how"] == "mixed" and which == 0)
            if merge:
                p = p + mk(arrange(part, which, False))
            else:
                sut.reset()
                p.update_profile(arrange(part, which, True))
        out = snap(p)
        for x in out["data_stats"]:
            x.pop("samples")  # a random choice
        return out

    want, got = run(False), run(True)
    if any(p != sorted(p) for p in c["perms"]) or c["case"]:
        ctx.nt()
    ctx.label(c["how"])
    ctx.label("opt%d" % c["opt"])
    ctx.check(near(got, want), "differs:" + c["how"], lambda: "with reordered columns: %s" % ref.first_diff(got, want))


# ------------------------------------------------------------------ refusals
BAD = ["update:fewer", "update:more", "update:renamed", "update:none", "update:text", "update:int", "update:dup",
       "update:mts", "merge:fewer", "merge:more", "merge:renamed", "merge:object", "merge:none", "merge:empty",
       "merge:options", "merge:hll", "merge:dup", "diff:object", "load:missing", "save:method", "init:samples"]


@st.composite
def reject_case(draw):
    return {"opt": draw(st.integers(0, len(OPTS) - 1)),
            "bad": draw(st.lists(st.sampled_from(BAD), min_size=1, max_size=4)), "cut": draw(st.floats(0, 1, width=16)),
            "dup": draw(st.booleans()), "cols": draw(history.table(min_rows=4, max_rows=12))}


def attempt(what, p, q_df, mk, opt):
    """returns a callable that must raise"""
    kind, how = what.split(":")
    d = q_df.copy()
    if how == "fewer":
        if len(d.columns) == 1:
            return None
        d = d.iloc[:, :-1]
    elif how == "more":
        d["extra"] = "1"
    elif how == "renamed":
        d.columns = list(d.columns[:-1]) + ["other"]
    elif how == "dup":
        if len(d.columns) < 2 or len(set(d.columns)) == len(d.columns):
            d.columns = [d.columns[0]] * len(d.columns)
            if len(d.columns) == 1:
                return None
        else:
            d.columns = ["u%d" % i for i in range(len(d.columns))]
    if kind == "update":
        data = {"none": None, "text": "a,b\n1,2", "int": 5}.get(how, d)
        if how == "mts":
            return lambda: p.update_profile(d, min_true_samples="3")
        return lambda: p.update_profile(data)
    if kind == "merge":
        if how in ("fewer", "more", "renamed", "dup"):
            return lambda: p + mk(d)
        if how == "object":
            return lambda: p + {"a": 1}
        if how == "none":
            return lambda: p + None
        if how == "empty":
            return lambda: p + util.profile(None, util.set_options(opt), profiler_type="structured")
        if how == "options":
            return lambda: p + util.profile(d, util.set_options(dict(opt, **{"int.is_enabled": False})))
        if how == "hll":
            if opt.get("row_statistics.unique_count.hashing_method") == "hll":
                other = dict(opt, **{"row_statistics.unique_count.hll.register_count": 9})
            else:
                other = dict(opt, **{"row_statistics.unique_count.hashing_method": "hll"})
            return lambda: p + util.profile(d, util.set_options(other))
    if what == "diff:object":
        return lambda: p.diff({"a": 1})
    if what == "load:missing":
        return lambda: dp.Profiler.load("/nonexistent/verif/profile.pkl")
    if what == "save:method":
        return lambda: p.save("/nonexistent/verif/profile.pkl", save_method="xml")
    if what == "init:samples":
        return lambda: util.profile(d, util.set_options(opt), min_true_samples=2.5)
    raise AssertionError(what)


@PROP.sub("reject", reject_case(), quick=350, thorough=9000)
def reject(c, ctx):
    names = ["x"] * len(c["cols"]) if c["dup"] and c["opt"] not in (4,) else ["c%d" % i for i in range(len(c["cols"]))]
    df = util.frame(c["cols"], names)
    i = min(len(df) - 1, max(1, int(c["cut"] * len(df))))
    A, B = df.iloc[:i], df.iloc[i:]
    opt = OPTS[c["opt"]]

    def mk(part):
        sut.reset()
        return util.profile(part.copy(), util.set_options(opt))

    p, twin = mk(A), mk(A)
    before = snap(p)
    for what in c["bad"]:
        f = attempt(what, p, B, mk, opt)
        if f is None:
            continue
        ctx.label(what)
        ctx.nt()
        try:
            f()
        except (ValueError, TypeError, OSError, AttributeError, NotImplementedError):
            pass
        else:
            ctx.fail("accepted:" + what, "%s was accepted (columns %r)" % (what, names))
        now = snap(p)
        ctx.check(ref.same(now, before), "trace:" + what, lambda: "refused %s left a trace at %s" % (
            what, ref.first_diff(now, before)))
    sut.reset()
    p.update_profile(B.copy())
    sut.reset()
    twin.update_profile(B.copy())
    a, b = snap(p), snap(twin)
    ctx.check(near(a, b), "later", lambda: "after refused operations an update gives %s" % ref.first_diff(a, b))
