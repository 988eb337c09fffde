"""Process-wide settings a computation must not change."""
import contextlib
import os
import random
import signal
import sys
import warnings

import numpy as np


def _filters():
    # entries added by the first import of a library carry a message or their own category
    return [(f[0], f[2].__name__, f[4]) for f in warnings.filters if f[1] is None and f[3] is None and f[2].__module__ == "builtins"]


def _plot_settings():
    m = sys.modules.get("matplotlib")
    if m is None or not hasattr(m, "rcParams"):
        return ""
    return repr(sorted((k, str(v)) for k, v in dict.items(m.rcParams) if k != "backend"))


def settings():
    st = np.random.get_state()
    return {
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy error handling": repr(sorted(np.geterr().items())),
        "numpy error callback": repr(np.geterrcall()),
        "numpy random state": (st[0], st[1].tobytes(), st[2:]),
        "python random state": random.getstate(),
        "warning filters": repr(_filters()),
        "recursion limit": sys.getrecursionlimit(),
        "working directory": os.getcwd(),
        "module search path": tuple(sys.path),
        "environment": tuple(sorted(os.environ.items())),
        "standard output": id(sys.stdout),
        "plot settings": _plot_settings(),
        "alarm handler": repr(signal.getsignal(signal.SIGALRM)),
    }


def changed(a, b):
    if not a["plot settings"]:  # the plotting library was first imported in between
        a = dict(a, **{"plot settings": b["plot settings"]})
    return {k: [repr(a[k])[:200], repr(b[k])[:200]] for k in a if a[k] != b[k]}


@contextlib.contextmanager
def neutral():
    """library defaults, so that any setting made by the code under test is a visible change"""
    with warnings.catch_warnings(), np.errstate(all="warn"):
        warnings.resetwarnings()
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
        yield
