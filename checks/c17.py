import scipy.stats
from common import np, pd, pl, boot, babc, bcalc, quiet
import gen
import ref
import obsv
from core import Skip, Violation

ID = "C17"
CASES = {"quick": 400, "thorough": 8000}
REQUIRED = ["synthetic_intervals", "real_intervals", "endpoints",
            "weighted_intervals", "refits_observed", "default_epsilon",
            "all_interval_tables", "ridge_intervals"]
RULE = ("A case is one random estimator (a real model refitted by the "
        "library, or the same model object with a smooth non-linear "
        "functional of the observation weights in place of estimation), "
        "dataset, confidence level, step and user weights; endpoints are "
        "compared with an independent implementation of Efron's algorithm "
        "on an independent high-precision solver, and every refit the "
        "library made is checked to be a maximum under its weights. "
        "Distinct: estimator, sizes, level, step, weights, entry point.")
ASSUMPTIONS = ["implied weights are non-negative, standard errors positive",
               "for real models the comparison tolerance is the measured "
               "effect of the optimizer's own error on the endpoints"]
N = scipy.stats.norm


class Undefined(Exception):
    pass


def efron_abc(T, n, t0, conf, eps, thresh=True):
    """abcnon of Efron and Tibshirani for a vector statistic T(P)."""
    K = len(t0)
    P0 = np.full(n, 1.0 / n)
    U = np.empty((n, K))
    S = np.empty((n, K))
    for i in range(n):
        d = -P0.copy()
        d[i] += 1.0
        tp, tm = T(P0 + eps * d), T(P0 - eps * d)
        U[i] = (tp - tm) / (2 * eps)
        S[i] = (tp - 2 * t0 + tm) / eps ** 2
        if thresh:
            U[i][np.abs(tp - tm) <= 1e-12] = 0
            S[i][np.abs(tp + tm - 2 * t0) <= 1e-12] = 0
    out = np.empty((2, K))
    for k in range(K):
        u = U[:, k]
        se = np.sqrt(np.sum(u * u)) / n
        if not se > 1e-6:
            raise Undefined("zero standard error")
        a = np.sum(u ** 3) / (6 * np.sum(u * u) ** 1.5)
        b = np.sum(S[:, k]) / (2.0 * n * n)
        dl = u / (n * n * se)
        q = T(P0 + eps * dl)[k] - 2 * t0[k] + T(P0 - eps * dl)[k]
        if thresh and abs(q) <= 1e-10:
            q = 0.0
        cq = q / (2 * se * eps ** 2)
        curv = b / se - cq
        z0 = N.ppf(2 * N.cdf(a) * N.cdf(-curv))
        if not np.isfinite(z0):
            raise Undefined("bias correction not finite")
        for e, pct in enumerate(((100 - conf) / 200.0,
                                 1 - (100 - conf) / 200.0)):
            z = z0 + N.ppf(pct)
            if 1 - a * z < .2:
                raise Undefined("acceleration too large")
            lam = z / (1 - a * z) ** 2
            P = P0 + lam * dl
            if P.min() < 0:
                raise Undefined("negative weights")
            out[e, k] = T(P)[k]
    return out


class Refits(object):
    """Stands in for the model's fit_mle: records the weights and options of
    every refit and answers with `answer(row weights, kwargs)`."""

    def __init__(self, ctx, w, answer, user, expect):
        self.ctx, self.w, self.answer = ctx, w, answer
        self.user, self.expect = user, expect
        self.calls = []

    def __call__(self, init_vals, *args, **kw):
        wt = kw.get("weights")
        ctx, w = self.ctx, self.w
        ctx.check(wt is not None and np.shape(wt) == (len(w["obs_idx"]),),
                  "every refit is weighted, one weight per row",
                  got=np.shape(wt))
        wt = np.asarray(wt, dtype=float)
        P = np.full(w["n_obs"], np.nan)
        P[w["obs_idx"]] = wt / self.user
        if not np.all(np.isfinite(P)) or P.min() < 0:
            raise Undefined("weights outside the domain")
        ctx.close(wt, P[w["obs_idx"]] * self.user, "weights of a refit are "
                  "observation weights times the caller's weights",
                  rtol=1e-9, atol=1e-14)
        for k, v in self.expect.items():
            ctx.check(k in kw and (kw[k] is v or kw[k] == v), "options of "
                      "the estimation are kept in every refit", option=k,
                      got=kw.get(k), expected=v)
        self.calls.append((P, wt.copy()))
        return self.answer(init_vals, wt, kw)


def refine(w, x, wt, ridge):
    """Newton iterations on the reference score; None if they do not settle
    on a well-conditioned maximum close to x."""
    x = np.array(x, dtype=float)
    K = len(x)
    for it in range(12):
        g = ref.gradient(w, x, wt, ridge)[0]
        H = hessian(w, x, wt, ridge)
        s = np.linalg.eigvalsh(-H)
        if s[0] < 1e-4 * max(1e-3, s[-1]):
            return None
        d = -np.linalg.solve(H, g)
        if np.abs(d).max() > 1.5:
            return None
        x = x + d
        if np.abs(d).max() < 1e-12:
            return x
    return x if np.abs(d).max() < 1e-9 else None


def chord(w, x, wt, ridge, H):
    """refine() with a Hessian known nearby; full Newton if that fails."""
    y = np.array(x, dtype=float)
    last = np.inf
    for it in range(40):
        d = -np.linalg.solve(H, ref.gradient(w, y, wt, ridge)[0])
        s = np.abs(d).max()
        if s > .9 * last or s > 1.5:
            break
        y, last = y + d, s
        if s < 1e-13:
            return y
    if last < 1e-11:
        return y
    return refine(w, x, wt, ridge)


def hessian(w, x, wt, ridge):
    K = len(x)
    H = np.empty((K, K))
    for k in range(K):
        e = np.zeros(K)
        e[k] = 1e-5
        H[:, k] = (ref.gradient(w, x + e, wt, ridge)[0] -
                   ref.gradient(w, x - e, wt, ridge)[0]) / 2e-5
    return (H + H.T) / 2


def world(rng, model, J, n):
    for _ in range(5):
        w = gen.world(rng, model, est=True, identified=True, J=J, n=n,
                      nmax=1, scale=1.0, named=True)
        if w["K"] <= 7:
            return w
    raise Skip("too many parameters")


def run(ctx, rng, w, m, t0, init, conf, eps, kw, K):
    """Call one of the public entry points -> (2 x K endpoints, name)."""
    how = gen.pick(rng, ["function", "method", "abc", "all"])
    ekw = {} if eps == .001 and rng.rand() < .7 else {"epsilon": eps}
    if not ekw:
        ctx.ev("default_epsilon")
    b = None
    with quiet():
        if how == "function":
            tab = babc.calc_abc_interval(m, t0.copy(), init.copy(), conf,
                                         **dict(ekw, **kw))
        else:
            b = boot.Boot(m, t0.copy())
            if how == "method":
                b.calc_abc_interval(conf, init.copy(), **dict(ekw, **kw))
            elif how == "abc":
                b.calc_conf_intervals(conf, interval_type="abc",
                                      init_vals=init.copy(),
                                      **dict(ekw, **kw))
            else:
                B = 60
                reps = t0 + rng.normal(size=(B, K)) * .3
                reps[0], reps[1] = t0 - 1, t0 + 1
                jk = t0 + rng.normal(size=(9, K)) * .1
                nm = list(b.mle_params.index)
                b.bootstrap_replicates = pd.DataFrame(reps, columns=nm)
                b.jackknife_replicates = pd.DataFrame(jk, columns=nm)
                b.calc_conf_intervals(conf, interval_type="all",
                                      init_vals=init.copy(),
                                      **dict(ekw, **kw))
    if b is None:
        return np.asarray(tab, dtype=float), how
    t = b.abc_interval
    al = 100.0 - conf
    ctx.check(list(t.index) == w["pnames"], "labelled with the parameters",
              got=list(t.index), expected=w["pnames"])
    lab = [float(str(c).rstrip("%")) for c in t.columns]
    ctx.check(len(lab) == 2 and all(
        abs(g - e) <= 5.1e-3 * e for g, e in zip(lab, (al / 2,
                                                       100 - al / 2))),
        "labelled with the level", got=list(t.columns), conf=conf)
    if how == "all":
        A = b.all_intervals
        ctx.check(list(A.index) == w["pnames"], "joint table: labelled with "
                  "the parameters", got=list(A.index))
        pi = bcalc.calc_percentile_interval(reps, conf)
        bca = bcalc.calc_bca_interval(reps, jk, t0, conf)
        for nm, want in (("percentile_interval", pi), ("BCa_interval", bca),
                         ("ABC_interval", t.values.T)):
            ctx.check(list(A[nm].columns) == list(t.columns),
                      "joint table: levels", got=list(A[nm].columns))
            ctx.check(np.array_equal(A[nm].values.T, np.asarray(want)),
                      "joint table: " + nm, got=A[nm].values.T, expected=want)
        ctx.ev("all_interval_tables")
    return np.asarray(t.values.T, dtype=float), how


def synthetic(ctx, rng, tier):
    """The algorithm itself, on an estimator known in closed form."""
    J = int(gen.pick(rng, [2, 3, 4]))
    n = J + int(gen.pick(rng, [4, 9, 20]))
    w = world(rng, gen.pick(rng, ["MNL", "Uneven", "Nested Logit", "Asym"]),
              J, n)
    K = w["K"]
    n = w["n_obs"]
    user = np.ones(n)
    wk = "none"
    if rng.rand() < .5:
        wk = "pos"
        user = rng.uniform(.3, 2.5, n)
    A = rng.normal(size=(n, K)) * rng.uniform(.3, 1)
    c2 = rng.uniform(-.5, .5, K)
    kind = gen.pick(rng, ["ratio", "expo", "mean2"])
    cross = rng.normal(size=(K, K)) * .1

    def F(P):
        q = P * user
        q = q / q.sum()
        mu = q.dot(A)
        if kind == "ratio":
            t = mu / (1 + .3 * np.tanh(mu)) + c2 * mu ** 2
        elif kind == "expo":
            t = np.exp(.4 * mu) + c2 * q.dot(A ** 2)
        else:
            t = mu + q.dot(A ** 2) * c2 + .1 * mu ** 3
        return t + cross.dot(mu ** 2)
    rows = user[w["obs_idx"]]
    kw = {}
    if wk != "none":
        kw["weights"] = rows.copy()
        ctx.ev("weighted_intervals")
    expect = {"just_point": True}
    if rng.rand() < .5:
        kw["ridge"] = expect["ridge"] = .7
    if rng.rand() < .5:
        kw["maxiter"] = expect["maxiter"] = 321
        kw["method"] = expect["method"] = "CG"
    conf = gen.pick(rng, [95, 90, 80, 50.0,
                          round(float(rng.uniform(20, 97)), 1)])
    eps = gen.pick(rng, [.001, .001, .01, 1e-4, .04])
    if eps * (n - 1) >= 1 - 1e-9:
        eps = .001
    t0 = F(np.full(n, 1.0 / n))
    init = rng.normal(size=K)
    ctx.sig("synthetic", w["model"], K, n, kind, wk, conf, eps)
    ctx.sample(kind="synthetic " + kind, K=K, n=n, conf=conf, eps=eps,
               weights=wk)
    try:
        want = efron_abc(F, n, t0, conf, eps)
        want2 = efron_abc(F, n, t0, conf, eps, thresh=False)
    except Undefined as e:
        raise Skip(str(e))
    m = gen.build(pl, w)

    def answer(init_vals, wt, kwargs):
        P = np.empty(n)
        P[w["obs_idx"]] = wt / rows
        return {"x": F(P), "success": True}
    spy = Refits(ctx, w, answer, rows, expect)
    m.fit_mle = spy
    try:
        tab, how = run(ctx, rng, w, m, t0, init, conf, eps, kw, K)
    except Undefined as e:
        ctx.check(False, "a refit used weights the algorithm never needs",
                  why=str(e))
    ctx.check(tab.shape == (2, K), "shape", got=tab.shape)
    tol = 3e-15 / eps ** 2 * 30 + 1e-9 + 3 * np.abs(want - want2)
    ctx.close(tab, want, "ABC endpoints", rtol=1e-8, atol=tol, conf=conf,
              epsilon=eps, entry=how)
    ctx.check(np.all(tab[0] <= tab[1]) or not np.all(want[0] < want[1]),
              "endpoints ordered", got=tab)
    ctx.ev("endpoints", 2 * K)
    ctx.ev("synthetic_intervals")
    ctx.ev("refits_observed", len(spy.calls))


REAL = ["MNL", "Uneven", "MNL", "Asym", "MNL", "Cloglog", "Scobit",
        "Nested Logit"]


def real(ctx, rng, tier, model):
    J = int(gen.pick(rng, [2, 3]))
    n = int(rng.randint(14, 26))
    w = world(rng, model, J, n)
    n = w["n_obs"]
    K = w["K"]
    user = np.ones(n)
    wk = "none"
    if rng.rand() < .4:
        wk = "pos"
        user = rng.uniform(.5, 2, n)
    rows = user[w["obs_idx"]]
    ridge = None if model == "Nested Logit" else gen.pick(
        rng, [None, .02, .05] if model == "MNL" else [.05, .2, .5])
    method = gen.pick(rng, ["trust-ncg", "BFGS", "Newton-CG"]) \
        if model == "MNL" else "BFGS"
    args = dict(method=method, gradient_tol=1e-9, loss_tol=1e-12,
                maxiter=400, print_res=False)
    if ridge is not None:
        args["ridge"] = ridge
    conf = gen.pick(rng, [90, 80, 95, 60])
    eps = gen.pick(rng, [.01, .01, .003, .001])
    ctx.sig(w["sig"], wk, ridge, method, conf, eps)
    ctx.sample(config=w["sig"], n=n, weights=wk, ridge=ridge, conf=conf,
               eps=eps, method=method)
    if w["nest_spec"] and min(len(v) for v in w["nest_spec"].values()) < 2:
        raise Skip("a fixed nest parameter has no standard error")
    m = gen.build(pl, w)
    init = np.zeros(K)
    w0 = rows / n
    with quiet():
        r = m.fit_mle(init.copy(), weights=w0.copy(), just_point=True, **args)
    if not obsv.moderate(w, np.asarray(r["x"])) or \
            np.abs(r["x"]).max() > 8:
        raise Skip("no interior maximum")
    t0 = refine(w, r["x"], w0, ridge)
    if t0 is None or np.abs(t0 - r["x"]).max() > 1e-3:
        raise Skip("no well-conditioned maximum")

    H0 = hessian(w, t0, w0, ridge)
    memo = {}

    def T(P):
        key = P.tobytes()
        if key not in memo:
            memo[key] = chord(w, t0, P[w["obs_idx"]] * rows, ridge, H0)
        if memo[key] is None:
            raise Undefined("estimator undefined at perturbed weights")
        return memo[key].copy()
    try:
        want = efron_abc(T, n, t0, conf, eps)
        want2 = efron_abc(T, n, t0, conf, eps, thresh=False)
    except Undefined as e:
        raise Skip(str(e))
    err = [1e-12]
    real_fit = m.fit_mle

    def answer(init_vals, wt, kwargs):
        res = real_fit(init_vals, **kwargs)
        x = np.asarray(res["x"])
        xs = chord(w, x, wt, ridge, H0)
        ctx.check(xs is not None or not res["success"], "a refit is a maximum"
                  " under its weights", x=x)
        if xs is None:
            raise Skip("optimizer gave up on a refit")
        e = np.abs(xs - x).max()
        g = ref.gradient(w, x, wt, ridge)[0]
        if np.abs(g).max() >= 1e-4 and not res["success"]:
            raise Skip("optimizer gave up on a refit")
        ctx.check(np.abs(g).max() < 1e-4, "score of a refit under its "
                  "weights is zero", got=g, x=x)
        err[0] = max(err[0], e)
        return res
    expect = dict(args, just_point=True)
    spy = Refits(ctx, w, answer, rows, expect)
    m.fit_mle = spy
    kw = dict(args)
    if wk != "none":
        kw["weights"] = rows.copy()
        ctx.ev("weighted_intervals")
    if ridge is not None:
        ctx.ev("ridge_intervals")
    try:
        tab, how = run(ctx, rng, w, m, t0, init, conf, eps, kw, K)
    except Undefined as e:
        ctx.check(False, "a refit used weights the algorithm never needs",
                  why=str(e))
    ctx.ev("refits_observed", len(spy.calls))
    # effect of estimator errors of the observed size on the endpoints:
    # second differences dominate, se * (bias/se + cq) moves by eta / eps^2
    tol = 1e-6 + 8 * err[0] / eps ** 2 + \
        8 * err[0] / eps + 3 * np.abs(want - want2)
    width = want[1] - want[0]
    if np.any(tol > .05 * np.abs(width)):
        raise Skip("optimizer error too large to judge")
    ctx.close(tab, want, "ABC endpoints of a real model", rtol=1e-6,
              atol=tol, conf=conf, epsilon=eps, entry=how)
    ctx.ev("endpoints", 2 * K)
    ctx.ev("real_intervals")


def case(ctx, rng, tier, i):
    if i % 5:
        synthetic(ctx, rng, tier)
    else:
        real(ctx, rng, tier, REAL[(i // 5) % len(REAL)])
