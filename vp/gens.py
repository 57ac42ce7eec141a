"""Shared generators.  Everything they produce is plain JSON."""
import string

import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------ cells
small_int = st.integers(-6, 6)
mid_int = st.integers(-1000, 1000)
big_int = st.one_of(st.integers(-10**9, 10**9), st.integers(-10**12, 10**12))


def _fmt_int(t):
    v, form = t
    if form == 1:
        return "%+d" % v
    if form == 2:
        return "%d.0" % v
    if form == 3:
        return ("-" if v < 0 else "") + "00%d" % abs(v)
    if form == 4:
        return "%de0" % v
    return str(v)


def int_cell(vals=None):
    if vals is None:
        vals = st.one_of(small_int, small_int, mid_int, big_int)
    return st.tuples(vals, st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4])).map(_fmt_int)


plain_int_cell = st.one_of(small_int, mid_int).map(str)


def _fmt_dec(t):
    m, d = t
    s = "-" if m < 0 else ""
    m = abs(m)
    if d == 0:
        return s + str(m)
    q = str(m).rjust(d + 1, "0")
    return s + q[:-d] + "." + q[-d:]


# decimal with an explicit number of digits after the point
dec_cell = st.tuples(st.one_of(st.integers(-50, 50), st.integers(-10**4, 10**4), st.integers(-10**8, 10**8)),
                     st.integers(0, 4)).map(_fmt_dec)
sci_cell = st.tuples(st.integers(-999, 999), st.integers(-6, 6)).map(lambda t: "%de%d" % t)
float_cell = st.one_of(dec_cell, dec_cell, dec_cell, sci_cell, int_cell(st.one_of(small_int, mid_int)))

ALPHA = string.ascii_letters
word = st.text(alphabet="abcdeXYZ", min_size=1, max_size=6)
SAFE_TEXT = "abcXYZ 019_-.,;:!?@#$%&*()/éßñ漢字"
# never a null marker, a number or a date: begins with 'w'
text_cell = st.one_of(word.map(lambda s: "w" + s),
                      st.text(alphabet=SAFE_TEXT, max_size=12).map(lambda s: "w" + s),
                      st.tuples(st.sampled_from("wv"), st.integers(1, 30)).map(lambda t: t[0] * t[1]))
cat_cell = st.sampled_from(["red", "green", "blue", "x", "Y", "yes", "no"])

DEFAULT_NULLS = ["", "nan", "none", "null", "NaN", "None", "NULL", "NONE", "Nan", " ", "   ", "-", "--", "---", "_",
                 "__", "____"]
# markers that the documented defaults treat as null
NULL_SAFE = ["", "nan", "none", "null", "NaN", "None", "NULL", " ", "   ", "--", "-----", "__", "______"]
null_cell = st.sampled_from(NULL_SAFE)


def date_cell():
    return st.one_of(
        st.datetimes(min_value=_dt(1980), max_value=_dt(2030)).map(lambda d: d.strftime("%Y-%m-%d %H:%M:%S")),
        st.datetimes(min_value=_dt(1980), max_value=_dt(2030)).map(lambda d: d.strftime("%Y-%m-%d")),
        st.datetimes(min_value=_dt(1980), max_value=_dt(2030)).map(lambda d: d.strftime("%m/%d/%y %H:%M")),
    )


def _dt(y):
    import datetime

    return datetime.datetime(y, 1, 1)


CELLS = {
    "int": plain_int_cell,
    "float": dec_cell,
    "text": text_cell,
    "cat": cat_cell,
    "date": date_cell(),
}


# ------------------------------------------------------------------ bulk data, described not listed
def bulk_spec(kinds=("normal", "uniform", "skew", "ints", "bimodal", "lattice"), lo=200, hi=3000):
    return st.fixed_dictionaries({
        "bulk": st.sampled_from(list(kinds)),
        "n": st.integers(lo, hi),
        "seed": st.integers(0, 10**6),
        "scale": st.sampled_from([0.01, 1, 1, 50, 1e4]),
        "shift": st.sampled_from([0, 0, -3, 10, 250]),
    })


def expand(spec):
    """list of cells, or a bulk description -> list of strings"""
    if isinstance(spec, list):
        return spec
    r = np.random.RandomState(spec["seed"])
    n, kind = spec["n"], spec["bulk"]
    if kind == "normal":
        x = r.normal(size=n)
    elif kind == "uniform":
        x = r.uniform(-1, 1, size=n)
    elif kind == "skew":
        x = r.exponential(size=n) ** 2
    elif kind == "bimodal":
        x = np.where(r.uniform(size=n) < 0.4, r.normal(-4, 0.5, n), r.normal(5, 1, n))
    elif kind == "lattice":
        x = r.randint(-5, 6, size=n) * 0.25
    elif kind == "ints":
        return [str(int(v)) for v in np.round(r.normal(size=n) * max(2, spec["scale"]) + spec["shift"])]
    elif kind == "cat":
        return ["c%d" % v for v in r.randint(0, max(2, int(spec["scale"]) % 40), size=n)]
    elif kind == "uniqint":
        return [str(v) for v in r.permutation(n) + int(spec["shift"])]
    else:
        raise ValueError(kind)
    x = x * spec["scale"] + spec["shift"]
    return ["%.6g" % v for v in x]


def splits(n, cuts):
    """turn generated fractions into batch boundaries of range(n)"""
    idx = sorted({min(n, max(0, int(round(c * n)))) for c in cuts})
    idx = [0] + [i for i in idx if 0 < i < n] + [n]
    return [(a, b) for a, b in zip(idx, idx[1:])]


cuts = st.lists(st.floats(0, 1, allow_nan=False, width=16), min_size=1, max_size=3)
