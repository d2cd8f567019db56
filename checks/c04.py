import re
import io
import contextlib
from common import np, pl, mlc, probing, record
import gen
import ref
import obsv
from core import Skip

ID = "C04"
CASES = {"quick": 420, "thorough": 5000}
REQUIRED = ["objective_values_probe", "objective_values_optimizer",
            "null_values", "final_values", "printed_values"]
RULE = ("A case is one random model/dataset/weights/ridge; the objective the "
        "library hands to the optimizer is evaluated at random points by a "
        "stand-in optimizer and at every point a real optimizer visits, and "
        "null/final/printed values are collected; each value is compared "
        "with the reference weighted log-likelihood. Distinct: "
        "configuration, weights, ridge, optimizer.")
ASSUMPTIONS = ["reference log-likelihood in lib/ref.py",
               "only points with moderate utilities are decided"]
METHODS = ["BFGS", "L-BFGS-B", "Newton-CG", "CG", "trust-ncg", "nelder-mead",
           "powell", "TNC", "SLSQP"]


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = gen.world(rng, model, est=True, identified=True)
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 9), int(rng.randint(1, 10 ** 6))
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    wk, wt = gen.row_weights(rng, w, scaled=True)
    ridge = gen.pick(rng, [None, None, .5, 1e-3, 3])
    kw = {} if wt is None else {"weights": wt.copy()}
    if ridge is not None:
        kw["ridge"] = ridge
    m = gen.build(pl, w)
    pts = [gen.tame([w], gen.theta(rng, w, vmax=gen.pick(
        rng, [.2, 1, 4, 10])), vcap=obsv.VCAP.get(model, 15))[0]
        for _ in range(3)]
    pts.append(np.zeros(w["K"]))
    final = pts[int(rng.randint(3))]
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, theta=pts[0])
    # 1. stand-in optimizer
    full = rng.rand() < .6
    out = io.StringIO()
    try:
        with probing([("f", p) for p in pts], final=final) as tr, \
                contextlib.redirect_stdout(out):
            res = gen.fit(m, w, pts[1], just_point=not full,
                          print_res=True, **kw)
    except np.linalg.LinAlgError:
        raise Skip("singular Hessian at the probe point")
    ctx.check(len(tr) == 1, "estimation calls the optimizer once")
    for x, v, g in tr[0].f:
        if obsv.moderate(w, x, draws=draws):
            obsv.check_value(ctx, w, x, v, wt, ridge, draws,
                             "objective value")
            ctx.ev("objective_values_probe")
    null = ref.loglik(w, np.zeros(w["K"]), wt, ridge, draws)
    if full:
        ctx.close(m.null_log_likelihood, null, "null log-likelihood",
                  rtol=1e-8, atol=1e-8)
        ctx.ev("null_values")
        if obsv.moderate(w, final, draws=draws):
            obsv.check_value(ctx, w, final, -m.log_likelihood, wt, ridge,
                             draws, "final log-likelihood")
            ctx.ev("final_values")
        txt = out.getvalue()
        for pat, th in (("at zero", np.zeros(w["K"])),
                        ("Initial", pts[1]), ("Final", final)):
            for line in txt.splitlines():
                if pat.lower() in line.lower() and "likelihood" in \
                        line.lower() and obsv.moderate(w, th, draws=draws):
                    mt = re.search(r"(-?[\d,]+\.\d+)\s*$", line)
                    if mt:
                        val = float(mt.group(1).replace(",", ""))
                        ctx.close(val, ref.loglik(w, th, wt, ridge, draws),
                                  "printed log-likelihood (%s)" % pat,
                                  rtol=1e-7, atol=2e-4)
                        ctx.ev("printed_values")
    else:
        ctx.close(res["fun"], -ref.loglik(w, final, wt, ridge, draws),
                  "objective in the point result", rtol=1e-6, atol=1e-6)
    # 2. a real optimizer
    method = gen.pick(rng, METHODS)
    ctx.sig(w["sig"], wk, ridge, method, full)
    m2 = gen.build(pl, w)
    start = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=5)[0]
    with record() as trs:
        r2 = gen.fit(m2, w, start, method=method, just_point=True,
                     maxiter=int(rng.randint(2, 7)), **kw)
    ctx.check(len(trs) == 1, "estimation calls the optimizer once")
    vis = trs[0].f
    step = max(1, len(vis) // 25)
    for x, v, g in vis[::step]:
        if obsv.moderate(w, x, draws=draws):
            obsv.check_value(ctx, w, x, v, wt, ridge, draws,
                             "objective value visited by the optimizer")
            ctx.ev("objective_values_optimizer")
    if obsv.moderate(w, np.asarray(r2["x"]), draws=draws):
        obsv.check_value(ctx, w, np.asarray(r2["x"]), r2["fun"], wt, ridge,
                         draws, "objective at the reported point")
