"""Oracles over recorded optimizer traces."""
import numpy as np
import ref
import gen
from core import Violation

VCAP = {"Cloglog": 6.0, "Scobit": 12.0}


def moderate(w, th, vcap=None, draws=None):
    """Is the point inside the range in which no overflow guard is active and
    the formulas are well conditioned?"""
    if not np.all(np.isfinite(th)):
        return False
    c = vcap or VCAP.get(w["model"], 18.0)
    v, h = gen.utilities(w, th)
    if np.abs(v).max() > c or np.abs(h).max() > 500:
        return False
    nests, shapes, icpt, _ = ref.split(w, th)
    if nests is not None and np.abs(nests).max() > 6:
        return False
    if shapes is not None and np.abs(shapes).max() > 4:
        return False
    if w["model"] == "Mixed Logit":
        if draws is not None:
            s = th[w["X"].shape[1]:]
            m = sum(np.abs(w["X"][:, p] * s[k]).max() *
                    np.abs(draws[k]).max()
                    for k, p in enumerate(w["mix_pos"]))
            if m > c:
                return False
        lp = ref.mixed_log_probs(w, th, draws) if draws is not None else None
        if lp is not None and lp.real.min() < -200:
            return False
        if lp is not None and ref.mixed_log_seq(w, th, draws)[0].real.min() \
                < -600:
            return False        # the whole sequence underflows
        return True
    return ref.log_probs(w, th).real.min() > -500


def tol(w):
    return 3e-6 if w["model"] in ("Cloglog", "Scobit") else 1e-7


def floor(wt, ridge=None):
    """Absolute rounding floor: values are sums weighted by the weights."""
    return (1.0 if wt is None else float(np.max(wt))) + (ridge or 0)


def check_value(ctx, w, th, negll, wt, ridge, draws, what="log-likelihood"):
    want = ref.loglik(w, th, wt, ridge, draws)
    u = ref.unit_weights(w, wt)
    mag = float(np.sum(u * np.abs(ref.obs_loglik(w, th, draws)))) + floor(wt, ridge)
    ctx.close(-np.asarray(negll), want, what, rtol=1e-9,
              atol=tol(w) * 1e-2 * mag, theta=th, ridge=ridge)


def wrong_nested_ridge_grad(w, th, wt, ridge, draws):
    g, _ = ref.gradient(w, th, wt, None, draws)
    nests, _, _, betas = ref.split(w, th)
    return g - 2 * ridge * np.concatenate([20 - nests, betas])


def expected_gradient(w, th, wt, ridge, draws):
    return ref.gradient(w, th, wt, ridge, draws)


def check_gradient(ctx, w, th, neggrad, wt, ridge, draws, fixed=(),
                   what="gradient"):
    g, mag = expected_gradient(w, th, wt, ridge, draws)
    fixed = list(fixed)
    t = tol(w)
    free = np.ones(len(th), dtype=bool)
    free[fixed] = False
    got = -np.asarray(neggrad, dtype=float).ravel()
    ctx.check(got.shape == g.shape, what + ": wrong shape", got=got.shape,
              expected=g.shape)
    atol = 1e-8 * floor(wt, ridge) + t * (mag + np.abs(g - ref.gradient(
        w, th, wt, None, draws)[0] if ridge else 0))
    try:
        ctx.close(np.where(free, got, 0), np.where(free, g, 0), what,
                  rtol=t, atol=atol, theta=th, ridge=ridge)
    except Violation:
        if ridge and w["model"] == "Nested Logit":
            bad = wrong_nested_ridge_grad(w, th, wt, ridge, draws)
            e = np.abs(np.where(free, got - bad, 0))
            if np.all(e <= atol + 1e-7 * np.abs(bad)):
                ctx.known("nested-ridge-gradient")
                return
        raise
    if fixed:
        ctx.check(np.all(got[fixed] == 0),
                  what + ": entries of fixed parameters are zero",
                  got=got[fixed])


def decouple(H, fixed, diag):
    H = np.array(H, dtype=float)
    for k in fixed:
        H[k, :] = 0
        H[:, k] = 0
        H[k, k] = diag
    return H


def expected_hessian(w, th, wt, draws):
    if w["model"] in ref.LOGIT:
        return -ref.expected_info(w, th, wt)
    return -ref.opg(w, th, wt, draws)


def check_hessian(ctx, w, th, H, wt, ridge, draws, fixed=(), sign=1,
                  what="Hessian"):
    """H: sign * Hessian. Constrained rows/columns are compared only for their
    decoupling."""
    base = expected_hessian(w, th, wt, draws)
    K = len(th)
    want = base - (2 * ridge * np.eye(K) if ridge else 0)
    got = sign * np.asarray(H, dtype=float)
    ctx.check(got.shape == (K, K), what + ": wrong shape", got=got.shape)
    fixed = list(fixed)
    if fixed:
        want = decouple(want, fixed, -1)
    d = np.sqrt(np.abs(np.diag(base))) + 1e-6 * np.sqrt(floor(wt, ridge))
    atol = max(tol(w), 1e-6) * (np.outer(d, d)) + 1e-8 * floor(wt, ridge)
    try:
        ctx.close(got, want, what, rtol=max(tol(w), 1e-6), atol=atol,
                  theta=th, ridge=ridge)
    except Violation:
        if ridge and w["model"] == "Mixed Logit":
            bad = base + 2 * ridge * np.eye(K)
            if fixed:
                bad = decouple(bad, fixed, -1)
            if np.all(np.abs(got - bad) <= atol + 1e-6 * np.abs(bad)):
                ctx.known("mixed-ridge-hessian-sign")
                return
        raise
    ctx.check(np.allclose(got, got.T, rtol=1e-6, atol=1e-7 *
                          (floor(wt, ridge) + np.abs(got).max())), what + ": symmetric")


def optimizer_failure(ctx, w, trs, exc, draws=None):
    """An exception escaped from inside the optimizer. It is the optimizer's
    own numerical breakdown (outside every property's domain) if everything
    the library handed to it at moderate points was finite; otherwise the
    library caused it."""
    import traceback
    from core import Skip
    last = traceback.extract_tb(exc.__traceback__)[-1].filename
    if "scipy" not in last and "numpy" not in last or not trs:
        raise exc
    tr = trs[-1]
    if tr.result is not None:
        if not moderate(w, np.asarray(tr.result.x), draws=draws):
            raise Skip("statistics not computable at a diverged solution")
        raise exc
    for x, v, g in tr.f:
        if moderate(w, x, draws=draws):
            ctx.check(np.all(np.isfinite(v)) and np.all(np.isfinite(g)),
                      "finite objective and gradient at a moderate point",
                      x=x, value=v, gradient=g)
    for x, H in tr.h:
        if moderate(w, x, draws=draws):
            ctx.check(np.all(np.isfinite(H)), "finite Hessian at a moderate "
                      "point", x=x)
    raise Skip("optimizer breakdown: " + type(exc).__name__)
