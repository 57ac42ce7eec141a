"""Make Hypothesis importable in /opt/venv's Python without installing anything there."""
import glob
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
TAG = "cp%d%d" % sys.version_info[:2]


def _unpack(dst):
    pats = ["hypothesis-*-%s-*.whl" % TAG, "sortedcontainers-*.whl", "attrs-*.whl"]
    for pat in pats:
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError("no wheel for %s in %s" % (pat, WHEELS))
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(dst)


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
        _unpack(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:  # somebody else was faster
            import shutil

            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)
    import hypothesis  # noqa: F401
    _small_first()


def _small_first():
    """Draw the small choices of a case before its data: Hypothesis often ends a large draw with the simplest choices,
    so that choices drawn after the data would mostly be the first of their list."""
    from hypothesis import strategies as st

    if getattr(st.fixed_dictionaries, "small_first", False):
        return
    plain = st.fixed_dictionaries

    def fixed_dictionaries(mapping, **kw):
        def big(k):
            return not repr(mapping[k]).startswith(("sampled_from(", "booleans(", "integers(", "just(", "none("))
        return plain({k: mapping[k] for k in sorted(mapping, key=big)}, **kw)

    fixed_dictionaries.small_first = True
    st.fixed_dictionaries = fixed_dictionaries
