"""Imports shared by all checks. The optimizer monitor is installed on
scipy.optimize.minimize before pylogit is imported, so every estimation run by
the code under test goes through it."""
import sys
import io
import contextlib
import warnings
from collections import OrderedDict

import numpy as np
import pandas as pd
import scipy.optimize
import scipy.stats
import scipy.linalg
import scipy.sparse
try:
    import statsmodels.iolib.summary  # noqa  (used by get_statsmodels_summary)
except Exception:
    pass
try:
    import tqdm  # noqa
except Exception:
    pass

warnings.simplefilter("ignore")
np.seterr(all="ignore")

_real_minimize = scipy.optimize.minimize


class OptTrace(object):
    """One call of the optimizer: what it was given and every point visited."""

    def __init__(self):
        self.x0 = None
        self.method = None
        self.tol = None
        self.options = None
        self.f = []        # (x, value, gradient or None)
        self.h = []        # (x, matrix)
        self.result = None
        self.has_hess = False
        self.eval_f = None
        self.eval_h = None


class Monitor(object):
    """Global state of the optimizer monitor."""

    def __init__(self):
        self.traces = None          # list while recording
        self.probe = None           # dict while probing
        self.calls = 0


MON = Monitor()


def _wrap(fun, jac, args):
    """-> callable x -> (value, gradient or None), never handing out or
    accepting aliased arrays."""
    def call(x):
        xx = np.array(x, dtype=float)
        if jac is True:
            v, g = fun(xx, *args)
            return v, g
        v = fun(xx, *args)
        g = jac(np.array(x, dtype=float), *args) if callable(jac) else None
        return v, g
    return call


def _minimize(fun, x0, args=(), method=None, jac=None, hess=None,
              hessp=None, bounds=None, constraints=(), tol=None,
              callback=None, options=None, **kw):
    if MON.traces is None and MON.probe is None:
        return _real_minimize(fun, x0, args=args, method=method, jac=jac,
                              hess=hess, hessp=hessp, bounds=bounds,
                              constraints=constraints, tol=tol,
                              callback=callback, options=options, **kw)
    MON.calls += 1
    if not isinstance(args, tuple):
        args = (args,)
    tr = OptTrace()
    tr.x0 = np.array(x0, dtype=float)
    tr.method = method
    tr.tol = tol
    tr.options = dict(options or {})
    tr.has_hess = hess is not None
    call = _wrap(fun, jac, args)

    def f_and_g(x):
        v, g = call(x)
        tr.f.append((np.array(x, dtype=float), float(np.asarray(v).ravel()[0])
                     if np.asarray(v).size == 1 else v,
                     None if g is None else np.array(g, dtype=float)))
        return v, g

    def h_only(x):
        m = hess(np.array(x, dtype=float), *args)
        tr.h.append((np.array(x, dtype=float), np.array(m, dtype=float)))
        return m

    tr.eval_f = f_and_g
    tr.eval_h = h_only if hess is not None else None
    if MON.traces is not None:
        MON.traces.append(tr)
    if MON.probe is not None:
        pr = MON.probe
        pr["traces"].append(tr)
        for kind, x in pr["script"]:
            if kind == "f":
                f_and_g(x)
            elif kind == "h" and hess is not None:
                h_only(x)
        fin = pr.get("final")
        fin = tr.x0 if fin is None else np.array(fin, dtype=float)
        v, g = f_and_g(fin)
        res = scipy.optimize.OptimizeResult(
            x=np.array(fin, dtype=float), fun=v, jac=g, success=True,
            status=0, message="monitor probe", nit=0, nfev=1, njev=1)
        tr.result = res
        return res
    real_jac = True if jac is True or callable(jac) else jac
    real_fun = f_and_g if real_jac is True else (lambda x: f_and_g(x)[0])
    res = _real_minimize(real_fun, tr.x0.copy(), method=method, jac=real_jac,
                         hess=h_only if hess is not None else None,
                         hessp=hessp, bounds=bounds, constraints=constraints,
                         tol=tol, callback=callback, options=options, **kw)
    tr.result = res
    return res


scipy.optimize.minimize = _minimize
try:
    import scipy.optimize._minimize as _sm
    _sm.minimize = _minimize if False else _sm.minimize
except Exception:
    pass

# Compile pylogit from source, never from a cached bytecode file.
_pp = getattr(sys, "pycache_prefix", None)
sys.pycache_prefix = "/nonexistent-verif-pycache"
sys.dont_write_bytecode = True
import pylogit as pl                                            # noqa: E402
import pylogit.choice_tools as ct                               # noqa: E402
import pylogit.choice_calcs as cc                               # noqa: E402
import pylogit.mixed_logit_calcs as mlc                         # noqa: E402
import pylogit.bootstrap as boot                                # noqa: E402
import pylogit.bootstrap_sampler as bsamp                       # noqa: E402
import pylogit.bootstrap_calcs as bcalc                         # noqa: E402
import pylogit.bootstrap_abc as babc                            # noqa: E402
sys.pycache_prefix = _pp


@contextlib.contextmanager
def record():
    """Record every optimizer call made inside the block (real optimizer)."""
    old = MON.traces, MON.probe
    MON.traces, MON.probe = [], None
    try:
        yield MON.traces
    finally:
        MON.traces, MON.probe = old


@contextlib.contextmanager
def probing(script, final=None):
    """Replace the optimizer by one that evaluates the objective at the points
    of `script` (list of ('f'|'h', x)) and reports `final` as its solution."""
    old = MON.traces, MON.probe
    MON.traces = None
    MON.probe = {"script": list(script), "final": final, "traces": []}
    try:
        yield MON.probe["traces"]
    finally:
        MON.traces, MON.probe = old


@contextlib.contextmanager
def quiet():
    """Swallow what the library prints (workers already write to /dev/null)."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


OD = OrderedDict
