"""Process set-up shared by every check: import emc2 from /repo's working tree, quietly."""
import contextlib
import io
import os
import sys
import warnings

REPO = os.environ.get("EMC2_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    for k, v in (("MPLBACKEND", "Agg"), ("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"),
                 ("DASK_SCHEDULER", "synchronous"), ("PYTHONHASHSEED", "0")):
        os.environ.setdefault(k, v)
    warnings.filterwarnings("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    with quiet():
        import emc2  # noqa
    assert emc2.__file__ == os.path.join(REPO, "emc2", "__init__.py"), emc2.__file__
    import numpy as np
    np.seterr(all="ignore")
    return emc2


_DEVNULL = None


@contextlib.contextmanager
def quiet():
    """Silence the print() chatter of the code under test."""
    global _DEVNULL
    if _DEVNULL is None:
        _DEVNULL = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = _DEVNULL
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout = old
