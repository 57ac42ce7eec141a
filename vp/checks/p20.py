"""P20: an unstructured text profile counts every character and word of every non-blank line."""
import json
import os
import re
import string
import tempfile
from collections import Counter

import pandas as pd
from hypothesis import strategies as st

from vp import ref, sut, util
from vp.checks.p14 import eq, list_diff, num_diff
from vp.core import Prop
from vp.sut import dp
from dataprofiler.data_readers.text_data import TextData  # noqa: E402
from dataprofiler.profilers.unstructured_text_profile import TextProfiler  # noqa: E402

PROP = Prop("P20", "at least one line holds a word which is counted",
            ["data labeler off", "profiles are merged with the same number of top characters/words, and diffed so"])

STOP = frozenset(TextProfiler(None)._stop_words)
WORDS = ["the", "The", "THE", "bank", "Bank", "BANK", "x", "x", "a1", "don't", "isn't", "--", "!", "(foo)", "foo,", "foo",
         "Foo.", "#tag", "e-mail", "12", "12.5", "é", "É", "naïve", "日本", "and", "AND", "only,", "ÿ", "a_b", "'s", "“q”"]
SEPS = [" ", " ", "  ", "\t", "\n", " \u00a0", "\r\n"]
BLANK = ["", " ", "\t", "  \n", "\u00a0", "\n"]
OPTS = [
    {},
    {},
    {"is_case_sensitive": False},
    {"stop_words": []},
    {"stop_words": ["foo", "bank"]},
    {"stop_words": ["foo", "bank", "12", "x"]},
    {"stop_words": ["é"], "is_case_sensitive": False},
    {"vocab.is_enabled": False},
    {"words.is_enabled": False},
    {"vocab.is_enabled": False, "words.is_enabled": False},
]
TOPS = [{}, {}, {}, {"top_k_chars": 2}, {"top_k_words": 3, "top_k_chars": 1}, {"top_k_words": 1, "top_k_chars": 4}]


def line():
    word = st.sampled_from(WORDS)
    full = st.lists(st.tuples(word, st.sampled_from(SEPS)), min_size=1, max_size=5).map(
        lambda ps: "".join(w + s for w, s in ps))
    return st.one_of(full, full, full.map(str.strip), full.map(lambda s: " " + s), st.sampled_from(BLANK),
                     st.text("aBé .,'-\n", max_size=8))


def lines(lo, hi):
    return st.lists(line(), min_size=lo, max_size=hi)


class Model:
    def __init__(self, o):
        self.stop = STOP if o.get("stop_words") is None else frozenset(o["stop_words"])
        self.cased = o.get("is_case_sensitive", True)
        self.kc, self.kw = o.get("top_k_chars"), o.get("top_k_words")
        self.vocab = Counter() if o.get("vocab.is_enabled", True) else None
        self.words = Counter() if o.get("words.is_enabled", True) else None
        self.n = self.blank = self.bytes = 0
        self.seen = False

    def update(self, rows):
        self.seen = self.seen or bool(rows)
        for r in rows:
            self.n += 1
            self.bytes += len(r.encode("utf-8"))
            if re.fullmatch(r"\s*", r):
                self.blank += 1
                continue
            if self.vocab is not None:
                self.vocab.update(r)
            if self.words is not None:
                for w in (r if self.cased else r.lower()).split():
                    w = w.strip(string.punctuation)
                    if w and w.lower() not in self.stop:
                        self.words[w] += 1

    def copy(self):
        m = Model({})
        m.__dict__.update(self.__dict__)
        m.vocab = None if self.vocab is None else Counter(self.vocab)
        m.words = None if self.words is None else Counter(self.words)
        return m

    def merge(self, o):
        if not self.seen or not o.seen:
            return (o if o.seen else self).copy()
        m = self.copy()
        m.n, m.blank, m.bytes = self.n + o.n, self.blank + o.blank, self.bytes + o.bytes
        m.cased = self.cased and o.cased
        m.stop = self.stop | o.stop
        m.kc = max(self.kc, o.kc) if self.kc and o.kc else None
        m.kw = max(self.kw, o.kw) if self.kw and o.kw else None
        m.vocab = None if self.vocab is None or o.vocab is None else self.vocab + o.vocab
        m.words = None if self.words is None or o.words is None else Counter()
        if m.words is not None:
            for src in (self.words, o.words):
                for w, c in src.items():
                    if w.lower() not in m.stop:
                        m.words[w if m.cased or self.cased == o.cased else w.lower()] += c
        return m


def top(ctx, got, counts, k, what):
    want = sorted(counts.values(), reverse=True)[:k]
    ctx.check(sorted(got.values(), reverse=True) == want and all(counts.get(w) == c for w, c in got.items()), what,
              lambda: "%r, exact counts %r" % (got, counts))


def judge(ctx, p, m, fmt, remove):
    r = p.report(report_options={"output_format": fmt, "remove_disabled_flag": remove})
    if fmt == "serializable":
        json.dumps(r)
    g = r["global_stats"]
    ctx.check(g["samples_used"] == m.n, "samples_used", lambda: "%r of %d lines" % (g["samples_used"], m.n))
    ctx.check(g["empty_line_count"] == m.blank, "empty_line_count", lambda: "%r, exact %d" % (g["empty_line_count"], m.blank))
    ctx.check(ref.close(g["memory_size"], m.bytes / 2 ** 20, 1e-9, 1e-15), "memory_size",
              lambda: "%r, exact %r" % (g["memory_size"], m.bytes / 2 ** 20))
    if not m.seen:
        ctx.check(not r["data_stats"], "empty report", lambda: repr(r["data_stats"]))
        return r
    s = r["data_stats"]["statistics"]
    ctx.check(("vocab" in s) == ("vocab_count" in s) == (m.vocab is not None or not remove), "vocab reported", lambda: repr(s))
    ctx.check(("words" in s) == ("word_count" in s) == (m.words is not None or not remove), "words reported", lambda: repr(s))
    for counts, keys, cname, k in ((m.vocab or Counter(), "vocab", "vocab_count", m.kc),
                                   (m.words or Counter(), "words", "word_count", m.kw)):
        if keys in s:
            ctx.check(len(s[keys]) == len(counts) and set(s[keys]) == set(counts), keys,
                      lambda: "%r, exact %r" % (s[keys], counts))
            top(ctx, s[cname], counts, k, cname)
    return r


def low(c, lower):
    if not lower:
        return c
    out = Counter()
    for w, n in c.items():
        out[w.lower()] += n
    return out


def judge_diff(ctx, p, q, mp, mq):
    d = p.diff(q)
    for k, a, b in (("samples_used", mp.n, mq.n), ("empty_line_count", mp.blank, mq.blank),
                    ("memory_size", mp.bytes / 2 ** 20, mq.bytes / 2 ** 20)):
        ctx.check(eq(d["global_stats"][k], num_diff(a, b)), "diff " + k, lambda: "%r, exact %r and %r" % (d["global_stats"], a, b))
    s = d["data_stats"]["statistics"]
    lower = mp.cased != mq.cased
    for a, b, keys, cname, k in ((mp.vocab or Counter(), mq.vocab or Counter(), "vocab", "vocab_count", mp.kc),
                                 (low(mp.words or Counter(), lower), low(mq.words or Counter(), lower), "words",
                                  "word_count", mp.kw)):
        ctx.check(eq(s[keys], list_diff(list(a), list(b))), "diff " + keys,
                  lambda: "%r, exact %r and %r" % (s[keys], a, b))
        if k is None:
            want = [{x: a[x] for x in a if x not in b}, {x: num_diff(a[x], b[x]) for x in a if x in b},
                    {x: b[x] for x in b if x not in a}]
            got = s[cname]
            if got == "unchanged" and a == b:
                continue
            ctx.check(got == want, "diff " + cname, lambda: "%r, expected %r" % (s[cname], want))


def wrap(rows, kind, tmp):
    if kind == "series":
        return pd.Series(rows, dtype=object)
    if kind == "frame":
        return pd.DataFrame({None: pd.Series(rows, dtype=object)})
    if kind == "labels":
        return pd.Series(rows, dtype=object, index=[i // 2 for i in range(len(rows))])
    if kind == "reversed":
        return pd.Series(rows, dtype=object, index=range(len(rows), 0, -1))
    if kind == "mixed":
        return pd.Series(rows, dtype=object, index=[i if i % 2 else "r%d" % i for i in range(len(rows))])
    if kind == "str":
        return rows[0] if rows else []
    return list(rows)


@st.composite
def history(draw):
    top_ = draw(st.sampled_from(TOPS))
    a = draw(st.sampled_from(OPTS))
    b = draw(st.one_of(st.just(a), st.just(dict(a, is_case_sensitive=not a.get("is_case_sensitive", True))), st.sampled_from(OPTS)))
    top_b = draw(st.one_of(st.just(top_), st.just(top_), st.sampled_from(TOPS)))
    kinds = st.sampled_from(["list", "list", "series", "frame", "labels", "reversed", "mixed", "str"])
    op = st.one_of(
        st.tuples(st.just("update"), st.integers(0, 1), lines(0, 6), kinds),
        st.tuples(st.just("update"), st.integers(0, 1), lines(1, 6), kinds),
        st.tuples(st.just("merge"), st.integers(0, 1), st.none(), st.none()),
        st.tuples(st.just("save"), st.integers(0, 1), st.none(), st.none()),
        st.tuples(st.just("diff"), st.integers(0, 1), st.none(), st.none()))
    return {"opts": [dict(a, **top_), dict(b, **top_b)], "fmt": draw(st.sampled_from([None, "serializable"])),
            "swell": draw(util.SWELL), "remove": draw(st.booleans()), "first": [draw(lines(0, 4)), draw(lines(0, 4))],
            "ops": draw(st.lists(op, min_size=1, max_size=5))}


def make(o, rows, **kw):
    opts = util.set_options({"unstructured_options.text." + k: v for k, v in o.items()})
    return dp.Profiler(rows, profiler_type="unstructured", options=opts, **kw)


@PROP.sub("history", history(), quick=1500, thorough=12000)
def run_history(c, ctx):
    c["first"][0] = util.swell(c["first"][0], c.get("swell"))
    ps = [make(o, list(rows)) for o, rows in zip(c["opts"], c["first"])]
    ms = [Model(o) for o in c["opts"]]
    for m, rows in zip(ms, c["first"]):
        m.update(rows)
    fmt, remove = c["fmt"], c["remove"]
    with tempfile.TemporaryDirectory() as tmp:
        for op, w, rows, kind in c["ops"]:
            if op == "update":
                if kind == "str":
                    rows = rows[:1] if rows and rows[0] else []
                ps[w].update_profile(wrap(rows, kind, tmp))
                ms[w].update(rows)
                if rows and kind not in ("list", "str"):
                    ctx.label("index " + kind)
            elif op == "merge":
                before = [judge(ctx, p, m, None, remove) for p, m in zip(ps, ms)]
                new = ps[w] + ps[1 - w]
                mn = ms[w].merge(ms[1 - w])
                if ms[w].seen and ms[1 - w].seen:
                    if ms[w].stop != ms[1 - w].stop:
                        ctx.label("different stop words")
                    if ms[w].cased != ms[1 - w].cased:
                        ctx.label("different case sensitivity")
                judge(ctx, new, mn, fmt, remove)
                for p, m, r in zip(ps, ms, before):
                    now = judge(ctx, p, m, None, remove)
                    ctx.check(util.strip_times(now) == util.strip_times(r), "operand changed by merge", lambda: "%r / %r" % (r, now))
                ps[w], ms[w] = new, mn
                ctx.label("merge")
            elif op == "save":
                path = os.path.join(tmp, "p.pkl")
                old = util.strip_times(ps[w].report())
                ps[w].save(path)
                ps[w] = dp.Profiler.load(path)
                ctx.check(util.strip_times(ps[w].report()) == old, "saved and loaded", lambda: "%r" % (old,))
                ctx.label("save")
            elif op == "diff" and ms[0].seen and ms[1].seen:
                judge_diff(ctx, ps[w], ps[1 - w], ms[w], ms[1 - w])
                ctx.label("diff")
            judge(ctx, ps[w], ms[w], fmt, remove)
    for p, m in zip(ps, ms):
        judge(ctx, p, m, fmt, remove)
    ctx.nt(any(m.words for m in ms))


@st.composite
def sampled(draw):
    n = draw(st.integers(1, 60))
    return {"n": n, "size": draw(st.one_of(st.none(), st.integers(1, 70))), "via": draw(st.booleans()),
            "mts": draw(st.one_of(st.none(), st.integers(0, 70))), "seed": draw(st.integers(0, 5)),
            "blank": draw(st.sets(st.integers(0, n - 1), max_size=n))}


@PROP.sub("sampled", sampled().map(lambda c: dict(c, blank=sorted(c["blank"]))), quick=1200, thorough=8000)
def run_sampled(c, ctx):
    """a subsample is taken without replacement, is as large as asked for, and goes on until enough lines have text"""
    sut.reset(c["seed"])
    blank = set(c["blank"])
    rows = ["" if i in blank else "w%d" % i for i in range(c["n"])]
    p = make({}, None, **({"samples_per_update": c["size"]} if c["via"] and c["size"] else {}))
    p.update_profile(rows, sample_size=None if c["via"] else c["size"], min_true_samples=c["mts"])
    r = util.report(p, None)
    g, s = r["global_stats"], r["data_stats"]["statistics"]
    want = min(c["n"], c["size"] or c["n"])
    words = s["word_count"]
    true = len(words)
    used = g["samples_used"]
    ctx.check(set(words) <= set(rows) and all(v == 1 for v in words.values()), "a line counted twice", lambda: repr(words))
    ctx.check(true + g["empty_line_count"] == used, "lines used", lambda: "%r %r" % (true, g))
    ctx.check(g["empty_line_count"] <= len(blank) and used <= c["n"], "more than there is", lambda: repr(g))
    ctx.check(used >= want, "fewer lines than asked", lambda: "%r of %r" % (g, c))
    enough = c["mts"] or 0
    if used > want:
        ctx.check(true - want < enough, "more lines than asked", lambda: "%r %r" % (true, c))
        ctx.label("went on for more text")
    if used < c["n"]:
        ctx.check(true >= enough, "stopped early", lambda: "%r %r" % (true, c))
        ctx.label("a real subsample")
        ctx.nt(True)
    if used == c["n"]:
        ctx.check(true == c["n"] - len(blank), "all lines", lambda: repr(words))
    ctx.check(sum(s["vocab_count"].values()) == sum(map(len, words)), "characters", lambda: repr(s["vocab_count"]))


@PROP.sub("files", st.fixed_dictionaries({"rows": lines(1, 8), "case": st.booleans()}), quick=250, thorough=1500)
def run_files(c, ctx):
    """a text file is profiled as its text"""
    text = "\n".join(r.replace("\r", " ") for r in c["rows"])
    if not text.strip():
        text += "q"
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "t.txt")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        o = {"is_case_sensitive": c["case"]}
        d = TextData(path, options={"encoding": "utf-8"})
        p = make(o, d)
        m = Model(o)
        m.update(list(d.data))
        ctx.check("".join(d.data) == text or "\n".join(d.data) == text or "".join(d.data).split() == text.split(), "text read",
                  lambda: "%r / %r" % (d.data, text))
        judge(ctx, p, m, None, False)
        ctx.check(p.report()["global_stats"]["file_type"] == "text" and p.report()["global_stats"]["encoding"] == "utf-8",
                  "file type", lambda: repr(p.report()["global_stats"]))
        ctx.nt(bool(m.words))
