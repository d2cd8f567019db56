"""Deep, comparable, immutable pictures of objects."""
import numpy as np
import pandas as pd
import scipy.sparse


def freeze(x, depth=0):
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(map(repr, x.columns)),
                tuple(str(t) for t in x.dtypes),
                repr(x.index.names), tuple(map(repr, x.index.tolist())),
                tuple(freeze(x.iloc[:, k].values) for k in
                      range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ("series", str(x.dtype), repr(x.name),
                tuple(map(repr, x.index.tolist())), freeze(x.values))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", x.shape, tuple(map(repr, x.ravel().tolist())))
        return ("arr", str(x.dtype), x.shape, x.tobytes())
    if scipy.sparse.issparse(x):
        return ("sparse", x.shape, freeze(np.asarray(x.todense())))
    if isinstance(x, dict):
        return (type(x).__name__, tuple((repr(k), freeze(v, depth + 1))
                                        for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v, depth + 1) for v in x))
    if callable(x):
        return ("callable", getattr(x, "__name__", type(x).__name__))
    if x is None or isinstance(x, (str, bytes, bool, int, float, complex,
                                   np.generic)):
        return (type(x).__name__, repr(x))
    if depth < 3 and hasattr(x, "__dict__"):
        return (type(x).__name__, tuple(sorted(
            (k, freeze(v, depth + 1)) for k, v in vars(x).items())))
    return (type(x).__name__,)


def model(m):
    """Picture of everything a model object carries."""
    out = {k: freeze(v) for k, v in vars(m).items()}
    out["__class__"] = type(m).__name__
    return out


def near(a, b, rtol=1e-9):
    """Are two pictures equal, up to a relative rounding error in floating
    point arrays?"""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 4 and len(b) == 4 and a[0] == "arr" == b[0]:
            if a[1:3] != b[1:3] or not a[1].startswith("float"):
                return False
            x, y = np.frombuffer(a[3], a[1]), np.frombuffer(b[3], b[1])
            s = np.nanmax(np.abs(np.concatenate([x, y]))) if x.size and \
                not np.all(np.isnan(np.concatenate([x, y]))) else 0.
            if not np.isfinite(s):
                s = 0.
            return bool(np.allclose(x, y, rtol=rtol, atol=rtol * s,
                                    equal_nan=True))
        if len(a) == 2 and len(b) == 2 and a[0] == b[0] and \
                isinstance(a[0], str) and "float" in a[0] and \
                isinstance(a[1], str) and isinstance(b[1], str):
            try:
                x, y = float(a[1]), float(b[1])
            except ValueError:
                return False
            return bool(np.isclose(x, y, rtol=rtol, atol=0, equal_nan=True))
        return len(a) == len(b) and all(near(x, y, rtol)
                                        for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y, rtol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[k], b[k], rtol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=rtol, atol=0, equal_nan=True))
    return False


def public(m):
    """Picture of the public attributes of a model object."""
    return {k: v for k, v in model(m).items()
            if k == "__class__" or not k.startswith("_")}
