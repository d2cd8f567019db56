from common import np, pl, mlc, probing, record
import gen
import ref
import obsv
import c05

ID = "C06"
CASES = {"quick": 900, "thorough": 14000}
REQUIRED = ["hessians_probe", "hessians_reported", "fisher_reported",
            "hessians_optimizer"]
RULE = ("A case is one random model/dataset/weights/ridge/fixed set; the "
        "matrices handed to the optimizer at random points and at points a "
        "real second-order optimizer visits, and the Hessian and Fisher "
        "information reported after fitting, are compared with matrices "
        "assembled from complex-step scores of an independent likelihood "
        "(conditional logit: also with differences of exact gradients); "
        "definiteness, symmetry and labels are checked. Distinct: "
        "configuration, weights, ridge, fixed set.")
ASSUMPTIONS = ["reference likelihood in lib/ref.py; moderate utilities",
               "Fisher information with ridge not decided (documented as "
               "incorrect under ridge)"]


def exact_hessian(w, th, wt, ridge):
    """Second derivative of the reference log-likelihood by central
    differences of complex-step gradients."""
    K = len(th)
    H = np.zeros((K, K))
    h = 1e-5
    for k in range(K):
        a, b = th.copy(), th.copy()
        a[k] += h
        b[k] -= h
        H[:, k] = (ref.gradient(w, a, wt, ridge)[0] -
                   ref.gradient(w, b, wt, ridge)[0]) / (2 * h)
    return (H + H.T) / 2


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = gen.world(rng, model, est=True, identified=rng.rand() < .8)
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 9), int(rng.randint(1, 10 ** 6))
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    wk, wt = gen.row_weights(rng, w, scaled=True)
    ridge = gen.pick(rng, [None, None, None, .5, 2])
    cons = c05.pick_fixed(rng, w)
    fixed = c05.all_fixed(w, cons)
    kw = {} if wt is None else {"weights": wt.copy()}
    if ridge is not None:
        kw["ridge"] = ridge
    if cons is not None:
        kw["constrained_pos"] = list(cons)
    pts = [gen.tame([w], gen.theta(rng, w, vmax=gen.pick(
        rng, [.2, 1, 3, 6])), vcap=min(6, obsv.VCAP.get(model, 8)))[0]
        for _ in range(2)]
    ctx.sig(w["sig"], wk, ridge, cons)
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, fixed=cons,
               theta=pts[0])
    m = gen.build(pl, w)
    script = []
    for p in pts:
        if rng.rand() < .5:
            script.append(("f", p))
        script.append(("h", p))
    full = True
    try:
        with probing(script, final=pts[0]) as tr:
            gen.fit(m, w, pts[1], **kw)
    except np.linalg.LinAlgError:
        full = False
        # legitimate only if the matrix to invert is really singular
        H = obsv.expected_hessian(w, pts[0], wt, draws)
        if ridge:
            H = H - 2 * ridge * np.eye(len(H))
        if fixed and model in ("Nested Logit", "Mixed Logit"):
            H = obsv.decouple(H, fixed, -1)
        s = np.linalg.svd(H, compute_uv=False)
        ctx.check(s[-1] <= 1e-9 * s[0] or ridge,
                  "Hessian reported as singular although it is not",
                  singular_values=s)
        with probing(script, final=pts[0]) as tr:
            gen.fit(m, w, pts[1], just_point=True, **kw)
    ctx.check(tr[0].has_hess, "optimizer is given a Hessian")
    for x, H in tr[0].h:
        if obsv.moderate(w, x, draws=draws):
            obsv.check_hessian(ctx, w, x, H, wt, ridge, draws, fixed,
                               sign=-1,
                               what="Hessian given to the optimizer")
            ctx.ev("hessians_probe")
    if full and obsv.moderate(w, pts[0], draws=draws):
        H = m.hessian
        ctx.check(list(H.index) == w["pnames"] and
                  list(H.columns) == w["pnames"], "Hessian labels",
                  got=list(H.index), expected=w["pnames"])
        got = H.values.astype(float)
        # whether constrained rows of the reported matrix are decoupled is an
        # implementation choice; compare the free block exactly, and the
        # other entries with either choice
        free = [k for k in range(w["K"]) if k not in fixed]
        if fixed:
            g2 = obsv.decouple(got, fixed, -1)
            off = got[fixed][:, free]
            whole = np.all(off == 0) and np.all(got[free][:, fixed] == 0)
            if not whole:
                obsv.check_hessian(ctx, w, pts[0], got, wt, ridge, draws,
                                   what="reported Hessian with fixed "
                                   "parameters")
            ctx.ev("fixed_blocks")
        else:
            g2 = got
        obsv.check_hessian(ctx, w, pts[0], g2, wt, ridge, draws, fixed,
                           what="reported Hessian")
        ctx.ev("hessians_reported")
        if ridge is None and free:
            ev = np.linalg.eigvalsh((got + got.T)[np.ix_(free, free)] / 2)
            ctx.check(ev.max() <= 1e-6 * (1 + np.abs(ev).max()),
                      "Hessian negative semi-definite", eig=ev)
        if model == "MNL":
            He = exact_hessian(w, pts[0], wt, ridge)
            sc = obsv.floor(wt, ridge) + np.abs(He).max()
            ctx.close(got[np.ix_(free, free)], He[np.ix_(free, free)],
                      "conditional logit Hessian is the exact second "
                      "derivative", rtol=1e-5, atol=1e-5 * sc)
            ctx.ev("exact_second_derivatives")
        if ridge is None and model in ref.LOGIT:
            F = m.fisher_information
            ctx.check(list(F.index) == w["pnames"] and
                      list(F.columns) == w["pnames"],
                      "Fisher information labels")
            want = ref.opg(w, pts[0], wt, draws)
            fl = obsv.floor(wt)
            d = np.sqrt(np.diag(want)) + 1e-6 * np.sqrt(fl)
            ctx.close(F.values, want, "reported Fisher information",
                      rtol=max(1e-6, obsv.tol(w)), atol=max(
                          1e-6, obsv.tol(w)) * np.outer(d, d) + 1e-8 * fl)
            ctx.ev("fisher_reported")
    if i % 3 == 0:
        m2 = gen.build(pl, w)
        start = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=4)[0]
        method = gen.pick(rng, ["Newton-CG", "trust-ncg"])
        with record() as trs:
            gen.fit(m2, w, start, method=method, just_point=True,
                    maxiter=int(rng.randint(2, 5)), **kw)
        for x, H in trs[0].h[:4]:
            if obsv.moderate(w, x, draws=draws):
                obsv.check_hessian(ctx, w, x, H, wt, ridge, draws, fixed,
                                   sign=-1,
                                   what="Hessian visited by the optimizer")
                ctx.ev("hessians_optimizer")
