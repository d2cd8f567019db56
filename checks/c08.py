from common import np, pl, mlc, record
import gen
import ref
import obsv
import c05
import c07
from core import Skip

ID = "C08"
CASES = {"quick": 480, "thorough": 8000}
REQUIRED = ["visited_points", "hessian_points", "reported_values",
            "missing_statistics", "free_stationarity", "singleton_nests",
            "restricted_maximum_checks"]
RULE = ("A case is one estimation with a random non-empty set of fixed "
        "positions (nested logit: also single-alternative nests); the "
        "monitor compares the fixed coordinates of every point at which the "
        "optimizer evaluates objective or Hessian, of its solution and of "
        "the reported estimates bit by bit with the starting values, checks "
        "that the free parameters are stationary given them, and that the "
        "inferential statistics of fixed parameters are missing while those "
        "of free ones are the textbook functions of the covariance. "
        "Distinct: configuration, weights, ridge, optimizer, fixed set.")
ASSUMPTIONS = ["optimizers BFGS, L-BFGS-B, CG, Newton-CG, trust-ncg and dogleg "
               "(derivative-free optimizers move every coordinate by "
               "construction; trust-exact moves them itself when the "
               "gradient is exactly zero)"]
METHODS = ["BFGS", "L-BFGS-B", "Newton-CG", "CG", "trust-ncg", "dogleg"]


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = c07.estimation_world(rng, model, i)
    w["R"], w["dseed"] = gen.ndraws(rng, 3, 9), int(rng.randint(1, 10 ** 6))
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    wk, wt = gen.row_weights(rng, w)
    ridge = gen.pick(rng, [None, None, None, .3])
    if model == "Nested Logit":
        ridge = None
    K = w["K"]
    single = c05.all_fixed(w, [])
    cons = None
    if not (single and rng.rand() < .4):
        k = int(rng.randint(1, K + 1)) if rng.rand() < .2 else \
            int(rng.randint(1, max(2, K)))
        cons = [int(x) for x in rng.choice(K, min(k, K), replace=False)]
        if rng.rand() < .5:
            cons = sorted(cons)
    fixed = c05.all_fixed(w, cons)
    kw = {} if wt is None else {"weights": wt.copy()}
    if ridge is not None:
        kw["ridge"] = ridge
    if cons is not None:
        kw["constrained_pos"] = list(cons)
    second = ("MNL", "Asym", "Cloglog", "Scobit", "Uneven")
    methods = METHODS if model in second else METHODS[:5]
    method = gen.pick(rng, methods)
    start = gen.tame([w], gen.theta(rng, w, vmax=gen.pick(rng, [.3, 1.5])),
                     vcap=4)[0]
    if rng.rand() < .3:
        start[fixed] = np.round(start[fixed])
        if rng.rand() < .3:
            start = np.round(start)
    ctx.sig(w["sig"], wk, ridge, method, fixed)
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, method=method,
               fixed=fixed, start=start)
    m = gen.build(pl, w)
    args = dict(method=method, loss_tol=1e-9,
                maxiter=int(gen.pick(rng, [3, 60, 150])))
    args.update(kw)
    full = rng.rand() < .7
    res = None
    with record() as trs:
        try:
            if full:
                try:
                    c07.do_fit(m, w, rng, start, **args)
                except np.linalg.LinAlgError:
                    full = False
            if not full:
                del trs[:]
                m = gen.build(pl, w)
                res = c07.do_fit(m, w, rng, start, just_point=True, **args)
        except ValueError as e:
            obsv.optimizer_failure(ctx, w, trs, e, draws)
    tr = trs[-1]
    want = start[fixed]
    ctx.check(np.array_equal(tr.x0[fixed], want), "fixed parameters start "
              "at their starting values", got=tr.x0[fixed], expected=want)
    last = tr.x0
    for x, v, g in tr.f:
        if np.isnan(x).all() and not obsv.moderate(w, last, draws=draws):
            raise Skip("the optimizer left the domain of floats")
        last = x
        ctx.check(np.array_equal(x[fixed], want),
                  "fixed parameters unchanged at every evaluated point",
                  got=x[fixed], expected=want, method=method)
    for x, H in tr.h:
        ctx.check(np.array_equal(x[fixed], want),
                  "fixed parameters unchanged at every Hessian evaluation",
                  got=x[fixed], expected=want, method=method)
    ctx.ev("visited_points", len(tr.f))
    ctx.ev("hessian_points", len(tr.h))
    x = np.array(m.params.values if full else res["x"], dtype=float)
    ctx.check(np.array_equal(x[fixed], want), "reported estimates of fixed "
              "parameters equal their starting values", got=x[fixed],
              expected=want, method=method)
    ctx.ev("reported_values", len(fixed))
    if single:
        ctx.ev("singleton_nests", len(single))
    free = [k for k in range(K) if k not in fixed]
    ok = bool(m.estimation_success if full else res["success"])
    sane = obsv.moderate(w, x, draws=draws)
    if full:
        # the groups hold the same values
        got = []
        for part in (m.nests, m.shapes, m.intercepts, m.coefs):
            if part is not None:
                got += list(np.asarray(part, dtype=float))
        ctx.check(np.array_equal(np.array(got), x), "parameter groups agree "
                  "with the parameter vector", got=got, expected=x)
        cov = np.asarray(m.cov, dtype=float)
        for nm in ("standard_errors", "tvalues", "pvalues", "robust_std_errs",
                   "robust_t_stats", "robust_p_vals"):
            s = getattr(m, nm)
            ctx.check(list(s.index) == w["pnames"], nm + ": labels",
                      got=list(s.index))
            vals = s.values.astype(float)
            ctx.check(np.all(np.isnan(vals[fixed])), nm + " of fixed "
                      "parameters is missing", got=vals[fixed], fixed=fixed)
        ctx.ev("missing_statistics", len(fixed))
        se = m.standard_errors.values.astype(float)
        d = np.diag(cov)
        pos = [k for k in free if d[k] > 0]
        if pos:
            ctx.close(se[pos], np.sqrt(d[pos]), "standard errors of free "
                      "parameters", rtol=1e-7)
        summ = m.summary
        ctx.check(list(summ.index) == w["pnames"], "summary labels")
        ctx.check(np.array_equal(summ["parameters"].values.astype(float), x),
                  "summary lists the fixed values")
    if sane and ok and free and method in ("BFGS", "CG", "trust-ncg",
                                           "dogleg"):
        g, mag = ref.gradient(w, x, wt, ridge, draws)
        ctx.close(g[free], np.zeros(len(free)), "free parameters are "
                  "stationary given the fixed ones", rtol=0,
                  atol=1.001e-6 * np.sqrt(len(free)) +
                  (obsv.tol(w) * mag + 1e-9)[free], method=method)
        ctx.ev("free_stationarity")
    if model == "MNL" and ok and args["maxiter"] > 5:
        t0 = np.zeros(K)
        t0[fixed] = want
        opt = c07.newton(w, wt, ridge, fixed, start=t0)
        if opt is not None:
            lo = ref.loglik(w, opt, wt, ridge)
            lx = ref.loglik(w, x, wt, ridge)
            ctx.check(abs(lo - lx) <= 1e-5 * (1 + abs(lo)),
                      "free parameters maximise the restricted likelihood",
                      got=lx, best=lo, method=method)
            ctx.ev("restricted_maximum_checks")
