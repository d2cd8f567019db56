"""Independent reference implementations of the models' published formulas.

Everything is written in terms of log-probabilities per row, is numerically
stable, and works with complex parameters, so derivatives are obtained by the
complex-step method to machine precision."""
import numpy as np

LOGIT = ("MNL", "Asym", "Cloglog", "Scobit", "Uneven")


def design(df, alt_col, spec, names=None):
    """-> (matrix, names) straight from the specification's documentation."""
    alts = sorted(set(df[alt_col].tolist()))
    a = df[alt_col].tolist()
    cols, nm = [], []
    for var, how in spec.items():
        v = [float(x) for x in df[var].tolist()]
        if isinstance(how, str) and how == "all_same":
            cols.append(v)
            nm.append("%s" % (var,))
        else:
            groups = alts if isinstance(how, str) else how
            for g in groups:
                members = set(g) if isinstance(g, list) else {g}
                cols.append([x if aa in members else 0.0
                             for x, aa in zip(v, a)])
                nm.append("{}_{}".format(var, g))
    if names is not None:
        nm = []
        for var in spec:
            val = names[var]
            if isinstance(val, str):
                nm.append(val)
            else:
                nm.extend(val)
    return np.array(cols, dtype=float).T.reshape(len(a), len(cols)), nm


def order_first(ids):
    seen, out = {}, []
    for x in ids:
        if x not in seen:
            seen[x] = len(out)
            out.append(x)
    return out, np.array([seen[x] for x in ids], dtype=int)


def softplus(z):
    """log(1+exp(z)) for real or complex z, stable in the real part."""
    z = np.asarray(z)
    zr = z.real
    pos = zr > 0
    m = np.where(pos, -z, z)
    return np.where(pos, z, 0) + np.log1p(np.exp(m))


def log_expm1(z):
    """log(exp(z)-1) for Re z > 0, stable."""
    z = np.asarray(z)
    big = z.real > 1.0
    zs = np.where(big, 1.0, z)
    small = np.log(np.expm1(zs))
    zb = np.where(big, z, 1.0)
    return np.where(big, zb + np.log1p(-np.exp(-zb)), small)


def insert_ref(vals, ref, J):
    out = np.zeros(J, dtype=np.result_type(vals, float))
    k = 0
    for j in range(J):
        if j != ref:
            out[j] = vals[k]
            k += 1
    return out


def split(world, theta):
    """Parameter vector -> (nests, shapes, intercepts, betas)."""
    n = world["npar"]
    out, k = [], 0
    for key in ("nests", "shapes", "intercepts", "betas"):
        out.append(theta[k:k + n[key]] if n[key] else None)
        k += n[key]
    assert k == len(theta)
    return out


def transform(model, v, shapes, intercepts, alt_idx, J, sref, iref):
    if model in ("MNL", "Mixed Logit"):
        h = v + 0
    elif model == "Cloglog":
        # log(exp(exp(v)) - 1)
        h = log_expm1(np.exp(v))
    elif model == "Scobit":
        s = np.exp(shapes)[alt_idx]
        h = -log_expm1(s * softplus(-v))
    elif model == "Uneven":
        s = np.exp(shapes)[alt_idx]
        h = softplus(v) - softplus(-s * v)
    elif model == "Asym":
        eta = insert_ref(shapes, sref, J)
        m = eta.real.max()
        lse = m + np.log(np.sum(np.exp(eta - m)))
        lc = (eta - lse)                                 # log c_j
        c = np.exp(lc)
        # log((1-c_j)/(J-1)) computed without cancellation
        l1 = np.empty(J, dtype=lc.dtype)
        for j in range(J):
            rest = np.array([lc[k] for k in range(J) if k != j])
            mm = rest.real.max()
            l1[j] = mm + np.log(np.sum(np.exp(rest - mm))) - np.log(J - 1.0)
        del c
        h = np.where(v.real >= 0, lc[alt_idx] * (1 - v),
                     lc[alt_idx] - v * l1[alt_idx])
    else:
        raise KeyError(model)
    if intercepts is not None:
        h = h + insert_ref(intercepts, iref, J)[alt_idx]
    return h


def group_lse(h, g, ng):
    """logsumexp of h within groups; -inf for empty groups."""
    m = np.full(ng, -np.inf)
    np.maximum.at(m, g, h.real)
    mm = np.where(np.isfinite(m), m, 0.0)
    s = np.zeros(ng, dtype=h.dtype)
    np.add.at(s, g, np.exp(h - mm[g]))
    with np.errstate(all="ignore"):
        return mm + np.log(s)


def log_probs(world, theta, X=None):
    """Per-row log probabilities for logit-type and nested models."""
    X = world["X"] if X is None else X
    theta = np.asarray(theta)
    nests, shapes, icpt, betas = split(world, theta)
    v = X.dot(betas)
    obs, no = world["obs_idx"], world["n_obs"]
    if world["model"] == "Nested Logit":
        lam = 1.0 / (1.0 + np.exp(-nests))
        nr = world["nest_idx"]
        M = world["npar"]["nests"]
        z = v / lam[nr]
        key = obs * M + nr
        incl = group_lse(z, key, no * M)              # log sum in nest
        have = np.zeros(no * M, dtype=bool)
        have[key] = True
        lamk = np.tile(lam, no)
        up = np.where(have, lamk * np.where(have, incl, 0), 0)
        rows = np.nonzero(have)[0]
        den = group_lse(up[rows], rows // M, no)
        return z - incl[key] + up[key] - den[obs]
    h = transform(world["model"], v, shapes, icpt, world["alt_idx"],
                  world["J"], world.get("sref"), world.get("iref"))
    return h - group_lse(h, obs, no)[obs]


def mixed_log_probs(world, theta, draws):
    """rows x draws log probabilities; draws: list (per mixing variable) of
    (individuals x draws) arrays in order of first appearance."""
    X, K = world["X"], world["X"].shape[1]
    beta, sigma = theta[:K], theta[K:]
    R = draws[0].shape[1]
    v = np.repeat(X.dot(beta)[:, None], R, axis=1)
    if np.iscomplexobj(theta):
        v = v.astype(complex)
    for k, pos in enumerate(world["mix_pos"]):
        v = v + sigma[k] * X[:, [pos]] * draws[k][world["mix_idx"], :]
    obs, no = world["obs_idx"], world["n_obs"]
    m = np.full((no, R), -np.inf)
    np.maximum.at(m, obs, v.real)
    s = np.zeros((no, R), dtype=v.dtype)
    np.add.at(s, obs, np.exp(v - m[obs]))
    return v - (m + np.log(s))[obs]


def mixed_log_seq(world, theta, draws):
    """log of the simulated probability of each individual's sequence."""
    lp = mixed_log_probs(world, theta, draws)
    ch = world["choice"]
    ni = world["n_mix"]
    seq = np.zeros((ni, lp.shape[1]), dtype=lp.dtype)
    np.add.at(seq, world["mix_idx"], lp * ch[:, None])
    m = seq.real.max(axis=1)
    return m + np.log(np.exp(seq - m[:, None]).mean(axis=1)), seq


def obs_loglik(world, theta, draws=None):
    """Per-unit log likelihood contributions (observations or individuals)."""
    if world["model"] == "Mixed Logit":
        return mixed_log_seq(world, theta, draws)[0]
    lp = log_probs(world, theta)
    out = np.zeros(world["n_obs"], dtype=lp.dtype)
    np.add.at(out, world["obs_idx"], lp * world["choice"])
    return out


def unit_weights(world, w):
    """Row weights -> weights of the likelihood's units."""
    if w is None:
        w = np.ones(len(world["choice"]))
    idx = world["mix_idx"] if world["model"] == "Mixed Logit" \
        else world["obs_idx"]
    n = world["n_mix"] if world["model"] == "Mixed Logit" else world["n_obs"]
    out = np.zeros(n)
    out[idx] = w
    return out


def penalty(world, theta, ridge):
    if ridge is None:
        return 0.0
    if world["model"] == "Nested Logit":
        nests, _, _, betas = split(world, theta)
        lam = 1.0 / (1.0 + np.exp(-nests))
        return ridge * (np.sum((lam - 1.0) ** 2) + np.sum(betas ** 2))
    return ridge * np.sum(theta ** 2)


def loglik(world, theta, w=None, ridge=None, draws=None):
    return np.sum(unit_weights(world, w) * obs_loglik(world, theta, draws)) \
        - penalty(world, theta, ridge)


STEP = 1e-40


def scores(world, theta, draws=None):
    """units x parameters matrix of derivatives of the unit log likelihoods."""
    theta = np.asarray(theta, dtype=float)
    out = []
    for k in range(len(theta)):
        t = theta.astype(complex)
        t[k] += 1j * STEP
        out.append(obs_loglik(world, t, draws).imag / STEP)
    return np.array(out).T


def row_scores(world, theta):
    """rows x parameters derivatives of the row log probabilities."""
    theta = np.asarray(theta, dtype=float)
    out = []
    for k in range(len(theta)):
        t = theta.astype(complex)
        t[k] += 1j * STEP
        out.append(log_probs(world, t).imag / STEP)
    return np.array(out).T


def penalty_grad(world, theta, ridge):
    if ridge is None:
        return np.zeros(len(theta))
    out = []
    for k in range(len(theta)):
        t = np.asarray(theta, dtype=complex).copy()
        t[k] += 1j * STEP
        out.append(penalty(world, t, ridge).imag / STEP)
    return np.array(out)


def gradient(world, theta, w=None, ridge=None, draws=None):
    s = scores(world, theta, draws)
    uw = unit_weights(world, w)
    return uw.dot(s) - penalty_grad(world, theta, ridge), \
        uw.dot(np.abs(s))


def expected_info(world, theta, w=None):
    """Weighted expected (Fisher) information of logit-type models."""
    s = row_scores(world, theta)
    p = np.exp(log_probs(world, theta).real)
    ww = np.ones(len(p)) if w is None else np.asarray(w, dtype=float)
    return (s * (ww * p)[:, None]).T.dot(s)


def opg(world, theta, w=None, draws=None):
    """Weighted sum of outer products of unit scores."""
    s = scores(world, theta, draws)
    uw = unit_weights(world, w)
    return (s * uw[:, None]).T.dot(s)
