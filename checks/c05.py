from common import np, pl, mlc, probing, record
import gen
import obsv
from core import Skip

ID = "C05"
CASES = {"quick": 900, "thorough": 14000}
REQUIRED = ["gradients_probe", "gradients_optimizer", "gradients_reported",
            "fixed_entries"]
RULE = ("A case is one random model/dataset/weights/ridge/fixed set; the "
        "gradient handed to the optimizer at random points, at points a real "
        "optimizer visits, and the gradient reported after fitting are "
        "compared entry by entry with complex-step derivatives of an "
        "independent log-likelihood. Distinct: configuration, weights, "
        "ridge, fixed set.")
ASSUMPTIONS = ["reference log-likelihood in lib/ref.py, differentiated by "
               "complex step", "only points with moderate utilities"]
METHODS = ["BFGS", "L-BFGS-B", "Newton-CG", "CG", "trust-ncg"]


def pick_fixed(rng, w):
    K = w["K"]
    if rng.rand() < .6 or K < 2:
        return None
    k = int(rng.randint(1, K))
    return sorted(int(x) for x in rng.choice(K, k, replace=False))


def all_fixed(w, cons):
    f = set(cons or [])
    if w["nest_spec"]:
        f |= {k for k, v in enumerate(w["nest_spec"].values())
              if len(v) == 1}
    return sorted(f)


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = gen.world(rng, model, est=True, identified=rng.rand() < .7)
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 9), int(rng.randint(1, 10 ** 6))
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    wk, wt = gen.row_weights(rng, w, scaled=True)
    ridge = gen.pick(rng, [None, None, None, .5, 2])
    cons = pick_fixed(rng, w)
    fixed = all_fixed(w, cons)
    kw = {} if wt is None else {"weights": wt.copy()}
    if ridge is not None:
        kw["ridge"] = ridge
    if cons is not None:
        kw["constrained_pos"] = list(cons)
    m = gen.build(pl, w)
    pts = [gen.tame([w], gen.theta(rng, w, vmax=gen.pick(
        rng, [.2, 1, 4, 8])), vcap=obsv.VCAP.get(model, 12))[0]
        for _ in range(3)]
    if rng.rand() < .3:
        pts.append(np.zeros(w["K"]))
    ctx.sig(w["sig"], wk, ridge, cons)
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, fixed=cons,
               theta=pts[0])
    script = []
    for p in pts:
        script.append(("f", p))
        if rng.rand() < .5:
            script.append(("h", p))
    full = rng.rand() < .5
    try:
        with probing(script, final=pts[0]) as tr:
            gen.fit(m, w, pts[1], just_point=not full, **kw)
    except np.linalg.LinAlgError:
        full = False
    for x, v, g in tr[0].f:
        if obsv.moderate(w, x, draws=draws):
            ctx.check(g is not None, "optimizer is given a gradient")
            obsv.check_gradient(ctx, w, x, g, wt, ridge, draws, fixed,
                                "gradient given to the optimizer")
            ctx.ev("gradients_probe")
            ctx.ev("fixed_entries", len(fixed))
    if full and obsv.moderate(w, pts[0], draws=draws):
        rep = m.gradient
        ctx.check(list(rep.index) == w["pnames"],
                  "reported gradient is labelled in parameter order",
                  got=list(rep.index), expected=w["pnames"])
        # entries of fixed parameters are only pinned down for the gradient
        # given to the optimizer
        got = rep.values.astype(float).copy()
        obsv.check_gradient(ctx, w, pts[0],
                            -np.where(np.isin(np.arange(w["K"]), fixed), 0,
                                      got), wt, ridge, draws, fixed,
                            "reported gradient")
        ctx.ev("gradients_reported")
    if i % 3 == 0:
        m2 = gen.build(pl, w)
        start = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=4)[0]
        method = gen.pick(rng, METHODS)
        with record() as trs:
            gen.fit(m2, w, start, method=method, just_point=True,
                    maxiter=int(rng.randint(2, 6)), **kw)
        vis = trs[0].f
        for x, v, g in vis[::max(1, len(vis) // 8)]:
            if g is not None and obsv.moderate(w, x, draws=draws):
                obsv.check_gradient(ctx, w, x, g, wt, ridge, draws, fixed,
                                    "gradient visited by the optimizer")
                ctx.ev("gradients_optimizer")
