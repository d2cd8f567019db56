from common import np, pl, mlc, record
import gen
import ref
import obsv

ID = "C07"
CASES = {"quick": 420, "thorough": 6000}
REQUIRED = ["improvement_checks", "stationarity_checks", "statistics_at_point",
            "global_maximum_checks", "interrupted_fits"]
RULE = ("A case is one random estimation problem solved with a random "
        "gradient-based optimizer, starting point, tolerance and iteration "
        "limit; the optimizer trace and the reported results are compared "
        "with an independent likelihood: no loss against the start, zero "
        "score on success, statistics evaluated at the reported point, and "
        "for the conditional logit the optimum found by an independent "
        "Newton solver from several starts. Distinct: configuration, "
        "weights, ridge, optimizer, limits.")
ASSUMPTIONS = ["reference log-likelihood in lib/ref.py",
               "'success' is judged at the gradient tolerance the caller "
               "asked for (BFGS, CG, trust region) or by the remaining "
               "log-likelihood gain (L-BFGS-B, Newton-CG)"]
METHODS = ["BFGS", "bfgs", "L-BFGS-B", "Newton-CG", "CG", "trust-ncg"]
GTOL = ("BFGS", "bfgs", "CG", "trust-ncg")


def newton(w, wt, ridge, fixed=(), start=None, draws=None):
    """Independent maximiser for the conditional logit: damped Newton.
    None when the optimum is at infinity or not identified."""
    K = w["K"]
    th = np.zeros(K) if start is None else np.array(start, dtype=float)
    free = [k for k in range(K) if k not in set(fixed)]
    ll = ref.loglik(w, th, wt, ridge)
    for it in range(200):
        g = ref.gradient(w, th, wt, ridge)[0][free]
        info = ref.expected_info(w, th, wt)[np.ix_(free, free)]
        if ridge:
            info = info + 2 * ridge * np.eye(len(free))
        s = np.linalg.svd(info, compute_uv=False)
        if len(s) and (s[-1] < 1e-6 * s[0] or s[-1] < 1e-6):
            return None
        d = np.linalg.solve(info, g) if free else np.zeros(0)
        t = 1.0
        for _ in range(40):
            new = th.copy()
            new[free] += t * d
            l2 = ref.loglik(w, new, wt, ridge)
            if l2 >= ll - 1e-12 * abs(ll):
                break
            t /= 2
        th, ll = new, l2
        if np.abs(th).max() > 30:
            return None
        if np.abs(t * d).max() < 1e-12 if free else True:
            return th
        if it > 6 and np.abs(g).max() < 1e-10:
            return th
    return None


def gap(w, th, wt, ridge, fixed=(), draws=None):
    """Quadratic estimate of the log-likelihood still to be gained."""
    free = [k for k in range(w["K"]) if k not in set(fixed)]
    if not free:
        return 0.0
    g = ref.gradient(w, th, wt, ridge, draws)[0][free]
    H = -obsv.expected_hessian(w, th, wt, draws)[np.ix_(free, free)]
    if ridge:
        H = H + 2 * ridge * np.eye(len(free))
    s, V = np.linalg.eigh((H + H.T) / 2)
    if s.min() < 1e-5 * max(1.0, s.max()):
        return None
    return .5 * float(g.dot(np.linalg.solve(H, g)))


def start_kwargs(rng, w, th):
    """Ways of passing the same starting values."""
    n = w["npar"]
    if w["model"] not in ("Asym", "Cloglog", "Scobit", "Uneven") or \
            rng.rand() < .7:
        if np.array_equal(th, np.round(th)):
            return th.astype(int), {}       # whole numbers
        return th.copy(), {}
    k1, k2 = n["shapes"], n["shapes"] + n["intercepts"]
    kw = {"init_coefs": th[k2:].copy()}
    if n["shapes"]:
        kw["init_shapes"] = th[:k1].copy()
    if n["intercepts"]:
        kw["init_intercepts"] = th[k1:k2].copy()
    return None, kw


def do_fit(m, w, rng, th, **kw):
    init, extra = start_kwargs(rng, w, th)
    kw.update(extra)
    kw.setdefault("print_res", False)
    if w["model"] == "Mixed Logit":
        kw["num_draws"], kw["seed"] = w["R"], w["dseed"]
    if init is None:
        return m.fit_mle(None, **kw)
    return m.fit_mle(init, **kw)


def estimation_world(rng, model, i):
    n = int(rng.randint(18, 45))
    return gen.world(rng, model, est=True, identified=True, n=n,
                     J=int(gen.pick(rng, [2, 3, 4, 5])),
                     scale=gen.pick(rng, [1.0, .4]), nmax=2)


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = estimation_world(rng, model, i)
    w["R"], w["dseed"] = gen.ndraws(rng, 3, 12), int(rng.randint(1, 10 ** 6))
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    wk, wt = gen.row_weights(rng, w)
    ridge = gen.pick(rng, [None, None, None, .3, 2])
    kw = {} if wt is None else {"weights": wt.copy()}
    if ridge is not None:
        kw["ridge"] = ridge
    method = gen.pick(rng, METHODS)
    gtol = gen.pick(rng, [1e-6, 1e-6, 1e-4, 1e-3])
    short = rng.rand() < .2
    maxiter = int(rng.randint(1, 6)) if short else 150
    start = gen.tame([w], gen.theta(rng, w, vmax=gen.pick(
        rng, [.01, .5, 2])), vcap=4)[0]
    if model == "Nested Logit":
        start[:w["npar"]["nests"]] = rng.uniform(-1, 2, w["npar"]["nests"])
    if rng.rand() < .12:
        start = np.round(start)
    ctx.sig(w["sig"], wk, ridge, method, gtol, short)
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, method=method,
               start=start)
    bad_grad = model == "Nested Logit" and ridge is not None   # known C05
    if bad_grad:
        kw.pop("ridge")
        ridge = None
    m = gen.build(pl, w)
    args = dict(method=method, gradient_tol=gtol, loss_tol=1e-9,
                maxiter=maxiter)
    args.update(kw)
    full = rng.rand() < .75
    res = None
    with record() as trs:
        try:
            if full:
                try:
                    do_fit(m, w, rng, start, **args)
                except np.linalg.LinAlgError:
                    full = False
            if not full:
                del trs[:]
                m = gen.build(pl, w)
                res = do_fit(m, w, rng, start, just_point=True, **args)
        except ValueError as e:
            obsv.optimizer_failure(ctx, w, trs, e, draws)
    ctx.check(len(trs) == 1, "one optimisation per fit")
    tr = trs[0]
    ctx.check(np.array_equal(tr.x0, start),
              "optimisation starts at the given starting values", got=tr.x0,
              expected=start)
    x = np.array(m.params.values if full else res["x"], dtype=float)
    success = bool(m.estimation_success if full else res["success"])
    ctx.check(x.shape == (w["K"],) and np.all(np.isfinite(x)),
              "finite estimates", x=x)
    ctx.check(np.array_equal(x, np.asarray(tr.result.x)),
              "reported parameters are the optimizer's solution", got=x,
              expected=tr.result.x)
    ctx.check(success == bool(tr.result.success), "success flag is the "
              "optimizer's", got=success)
    ctx.check(tr.result.get("nit", 0) <= maxiter,
              "no more iterations than requested", nit=tr.result.get("nit"))
    sane = obsv.moderate(w, x, draws=draws)
    l0 = ref.loglik(w, start, wt, ridge, draws)
    if sane:
        l1 = ref.loglik(w, x, wt, ridge, draws)
        ctx.check(l1 >= l0 - 1e-9 * (1 + abs(l0)),
                  "log-likelihood at the estimates is at least that at the "
                  "start", start=l0, end=l1)
        ctx.ev("improvement_checks")
        if short:
            ctx.ev("interrupted_fits")
    if sane and full:
        obsv.check_value(ctx, w, x, -m.log_likelihood, wt, ridge, draws,
                         "reported log-likelihood at the reported parameters")
        obsv.check_gradient(ctx, w, x, -np.asarray(m.gradient), wt, ridge,
                            draws, what="reported gradient at the reported "
                            "parameters", fixed=()) \
            if model != "Nested Logit" else None
        if model != "Mixed Logit":
            p = np.exp(ref.log_probs(w, x).real)
        else:
            p = np.exp(ref.mixed_log_probs(w, x, draws).real)
        got = np.asarray(m.long_fitted_probs, dtype=float)
        ctx.close(got, p, "fitted probabilities at the reported parameters",
                  rtol=1e-5, atol=1e-7)
        ctx.ev("statistics_at_point")
    fixed = []
    if w["nest_spec"]:
        fixed = [k for k, v in enumerate(w["nest_spec"].values())
                 if len(v) == 1]
    if sane and success:
        g, mag = ref.gradient(w, x, wt, ridge, draws)
        g, mag = np.delete(g, fixed), np.delete(mag, fixed)
        if method in GTOL:
            lim = gtol * (1 if method != "CG" else 1) * 1.001
            if method == "trust-ncg":
                lim *= np.sqrt(max(1, len(g)))
            ctx.close(g, np.zeros(len(g)), "score at the estimates is zero "
                      "when success is reported", rtol=0,
                      atol=lim + obsv.tol(w) * mag + 1e-9, method=method)
            ctx.ev("stationarity_checks")
        else:
            q = gap(w, x, wt, ridge, fixed, draws)
            if q is not None and model in ("MNL",):
                ctx.check(q <= 1e-4 * (1 + abs(l1)), "no log-likelihood left "
                          "to gain when success is reported", gain=q,
                          method=method, ll=l1)
                ctx.ev("stationarity_checks")
    if model == "MNL" and not short:
        opt = newton(w, wt, ridge)
        if opt is None:
            return
        lo = ref.loglik(w, opt, wt, ridge)
        info = ref.expected_info(w, opt, wt)
        starts = [start, np.zeros(w["K"]),
                  gen.tame([w], gen.theta(rng, w, vmax=3), vcap=5)[0]]
        for s0 in starts:
            meth = gen.pick(rng, METHODS)
            m2 = gen.build(pl, w)
            r = do_fit(m2, w, rng, s0, just_point=True, method=meth,
                       gradient_tol=1e-6, loss_tol=1e-10, **kw)
            xx = np.asarray(r["x"])
            lx = ref.loglik(w, xx, wt, ridge)
            ctx.check(lx <= lo + 1e-8 * (1 + abs(lo)),
                      "reference optimum is the maximum", got=lx, ref=lo)
            if r["success"]:
                d = xx - opt
                dist = float(d.dot(info).dot(d))
                ctx.check(lo - lx <= 1e-5 * (1 + abs(lo)) and dist <= 1e-3,
                          "conditional logit reaches the global maximum",
                          got=xx, expected=opt, ll=lx, best=lo, method=meth)
                ctx.ev("global_maximum_checks")
            else:
                # precision loss next to the optimum is not a failure to
                # find it; anything else contradicts concavity
                ctx.check(lo - lx <= 1e-3 * (1 + abs(lo)) or meth in
                          ("CG",), "gradient-based optimizers do not stall "
                          "away from the maximum of a concave function",
                          method=meth, ll=lx, best=lo, msg=r["message"])
