"""Exact reference statistics (rational arithmetic for small data, careful float64 for bulk)."""
import math
from fractions import Fraction

import numpy as np


def moments(xs):
    """xs: list of finite python floats/ints; exact central moments as floats + conditioning."""
    n = len(xs)
    if n <= 400:
        fx = [Fraction(float(x)) for x in xs]
        s = sum(fx)
        mean = s / n
        d = [x - mean for x in fx]
        m2 = sum(v * v for v in d)
        m3 = sum(v * v * v for v in d)
        m4 = sum(v * v * v * v for v in d)
        out = dict(n=n, sum=float(s), mean=float(mean), m2=float(m2))
        var = m2 / n
        if m2 == 0:
            out.update(var=0.0, skew=0.0, kurt=-3.0)
        else:
            sd = math.sqrt(var)
            out.update(var=float(var), skew=float(m3 / n) / sd**3 if sd**3 else 0.0,
                       kurt=float((m4 / n) / (var * var)) - 3.0)
    else:
        x = np.array(xs, dtype=np.longdouble)
        mean = x.sum() / n
        d = x - mean
        m2 = (d**2).sum()
        out = dict(n=n, sum=float(x.sum()), mean=float(mean), m2=float(m2), var=float(m2 / n))
        if m2 == 0:
            out.update(var=0.0, skew=0.0, kurt=-3.0)
        else:
            out.update(skew=float((d**3).mean() / (m2 / n) ** np.longdouble(1.5)),
                       kurt=float((d**4).mean() / (m2 / n) ** 2 - 3))
    out["abssum"] = float(np.sum(np.abs(np.array(xs, dtype=float))))
    out["absmax"] = float(np.max(np.abs(np.array(xs, dtype=float))))
    out["min"], out["max"] = float(min(xs)), float(max(xs))
    sd = math.sqrt(out["var"]) if out["var"] > 0 else 0.0
    # moments are only compared where float64 can represent them meaningfully
    out["constant"] = out["min"] == out["max"]
    out["cond_ok"] = (not out["constant"]) and sd > 1e-2 and out["absmax"] / sd < 1e4
    return out


def corrected(m, bias_correction=True):
    """variance, skewness, kurtosis as the documentation defines them (NaN where undefined)."""
    n, var, sk, ku = m["n"], m["var"], m["skew"], m["kurt"]
    if not bias_correction:
        return var, sk, ku
    nan = float("nan")
    v = var * n / (n - 1) if n >= 2 else nan
    s = math.sqrt(n * (n - 1)) * sk / (n - 2) if n >= 3 else nan
    k = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * (ku + 3) - 3 * (n - 1)) if n >= 4 else nan
    return v, s, k


def close(a, b, rel=1e-7, abs_=0.0):
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def order_interval(xs, q):
    """[lo, hi] holding every reasonable definition of the q-quantile of xs (sorted list)."""
    n = len(xs)
    lo = int(math.floor(q * n)) - 1
    hi = int(math.ceil(q * n))
    return xs[min(n - 1, max(0, lo))], xs[min(n - 1, max(0, hi))]


def same(a, b):
    """structural equality of reports: NaN equals NaN, arrays compare by value"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a2, b2 = np.asarray(a), np.asarray(b)
        if a2.shape != b2.shape:
            return False
        return all(same(x, y) for x, y in zip(a2.ravel().tolist(), b2.ravel().tolist()))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(map(str, a)) == set(map(str, b)) and len(a) == len(b) and all(
            k in b and same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        return fa == fb
    return type(a) is type(b) and a == b


def first_diff(a, b, path=""):
    """human-readable first difference between two reports"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s only on one side" % (path, k)
            r = first_diff(a[k], b[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s length %d != %d (%r vs %r)" % (path, len(a), len(b), a[:6], b[:6])
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if same(a, b):
        return None
    return "%s: %r != %r" % (path, a, b)
