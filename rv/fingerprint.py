"""Exact fingerprints of values and results, and of what may not change about an input"""
import dataclasses
import decimal
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings
from collections import OrderedDict, deque
from collections.abc import Iterator, Mapping, Sequence

import numpy as np
import pandas as pd


def fp(x, depth=0):
    """Hashable description of a value, exact to the last bit and with types"""
    if depth > 12:
        raise RecursionError("fingerprint too deep")
    d = depth + 1
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, float):
        return (type(x).__name__, float(x).hex())
    if isinstance(x, np.generic):
        return (type(x).__name__, x.tobytes() if x.dtype != object else repr(x))
    if isinstance(x, np.ndarray):
        body = tuple(fp(v, d) for v in x.ravel().tolist()) if x.dtype == object else x.tobytes()
        return ("ndarray", str(x.dtype), x.shape, body)
    if isinstance(x, pd.Series):
        extra = (fp(dict(x.attrs), d), bool(x.flags.allows_duplicate_labels))
        return ("Series", str(x.dtype), fp(x.name, d), fp(x.index, d), extra, tuple(fp(v, d) for v in x.tolist()))
    if isinstance(x, (pd.Index,)):
        return ("Index", str(x.dtype), fp(list(x.names), d), tuple(fp(v, d) for v in x.tolist()))
    if isinstance(x, (pd.Categorical,)):
        return ("Categorical", str(x.dtype), bool(x.ordered), fp(x.categories, d), x.codes.tobytes())
    if isinstance(x, pd.api.extensions.ExtensionArray):
        return ("array", str(x.dtype), tuple(fp(v, d) for v in x))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, tuple((k, fp(v, d)) for k, v in sorted(vars(x).items())))
    if isinstance(x, Mapping):
        return (type(x).__name__, tuple((fp(k, d), fp(x[k], d)) for k in list(x)))
    if isinstance(x, (tuple, list, deque)) or (isinstance(x, Sequence) and not isinstance(x, (str, bytes))):
        return (type(x).__name__, tuple(fp(v, d) for v in list(x)))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(map(repr, x))))
    if isinstance(x, Iterator):
        return (type(x).__name__,)
    return (type(x).__name__, repr(x))


def outcome_fp(out):
    """Of what a call did, warnings included"""
    if out.exc is not None:
        return ("raised", type(out.exc).__name__, str(out.exc))
    return ("result", fp(out.value))


def difference(a, b, path="result"):
    """Where two fingerprints differ"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                name = a[0] if a and isinstance(a[0], str) else ""
                return difference(x, y, f"{path}.{name}" if name and len(path) < 80 else path)
    return f"{path}: {str(a)[:150]} != {str(b)[:150]}"


def settings():
    """{name: fingerprint} of what all code of a process shares, and a calculation should leave alone"""
    import scipy.special

    umask = os.umask(0)
    os.umask(umask)
    found = {
        "NumPy's error settings": np.geterr(),
        "NumPy's print options": {k: str(v) for k, v in np.get_printoptions().items()},
        "NumPy's random state": [str(x) for x in np.random.get_state()],
        "SciPy's error settings": scipy.special.geterr(),
        "pandas' options": str(getattr(pd._config.config, "_global_config", None)),
        "the random state": random.getstate(),
        "the warnings filters": str(warnings.filters),
        "how warnings are shown": repr(warnings.showwarning),
        "the decimal context": str(decimal.getcontext()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the recursion limit": sys.getrecursionlimit(),
        "the switch interval": sys.getswitchinterval(),
        "the integer text limit": getattr(sys, "get_int_max_str_digits", int)(),
        "the streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "the hooks": [repr(sys.excepthook), repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.excepthook)],
        "garbage collection": [gc.isenabled(), gc.get_threshold()],
        "the environment": dict(os.environ),
        "the current directory": os.getcwd(),
        "the umask": umask,
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "running threads": len(threading.enumerate()),
    }
    return {k: str(v) for k, v in found.items()}
