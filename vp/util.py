"""Driving the public API the way a user does."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import sut
from vp.gens import expand

dp = sut.dp


def options(**settings):
    o = dp.ProfilerOptions()
    o.set({"data_labeler.is_enabled": False, "multiprocess.is_enabled": False})
    if settings:
        o.set({k.replace("__", "."): v for k, v in settings.items()})
    return o


def set_options(d=None):
    o = options()
    if d:
        o.set(d)
    return o


def frame(cols, names=None):
    """cols: list of cell lists (strings / None / bulk spec) -> DataFrame of objects"""
    data = [expand(c) for c in cols]
    names = names if names is not None else ["c%d" % i for i in range(len(data))]
    df = pd.DataFrame({i: pd.Series(d, dtype=object) for i, d in enumerate(data)})
    df.columns = names
    return df


def profile(df, opts=None, **kw):
    return dp.Profiler(df, options=opts if opts is not None else options(), **kw)


def strip_times(o):
    """drop timing fields: the only part of a report that legitimately varies"""
    if isinstance(o, dict):
        return {k: strip_times(v) for k, v in o.items() if k != "times"}
    if isinstance(o, list):
        return [strip_times(v) for v in o]
    return o


def report(prof, fmt="serializable", **kw):
    r = prof.report(report_options=dict({"output_format": fmt}, **kw))
    return strip_times(r)


# one row of the first batch is repeated so often: what looks only at the first hundreds of rows misses the others
SWELL = st.sampled_from([None] * 21 + [[0, 1100], [1, 600], [0, 2600]])


def swell(rows, spec):
    if not spec or not rows:
        return list(rows)
    i = spec[0] % len(rows)
    return list(rows[:i]) + [rows[i]] * spec[1] + list(rows[i:])


def swell_cols(cols, spec):
    return [swell(c, spec) for c in cols]


def col(rep, i=0):
    return rep["data_stats"][i]


class InlinePool:
    """multiprocessing.Pool whose jobs run at once, on copies that were pickled as for a worker"""

    def __init__(self, *a, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def starmap(self, func, items, chunksize=None):
        import pickle
        return [pickle.loads(pickle.dumps(func(*pickle.loads(pickle.dumps(tuple(x)))))) for x in items]

    def map(self, func, items, chunksize=None):
        return self.starmap(func, [(x,) for x in items])


def merge_list(profiles, inline=True, pool_count=2):
    """merge_profile_list, by real workers or inline"""
    from unittest import mock

    from dataprofiler.profilers.profiler_utils import merge_profile_list
    if not inline:
        return merge_profile_list(profiles, pool_count=pool_count)
    with mock.patch("multiprocessing.Pool", InlinePool):
        return merge_profile_list(profiles, pool_count=pool_count)
