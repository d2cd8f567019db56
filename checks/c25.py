from common import np, pl, OD, mlc, probing, record, quiet
import gen
import ref
import obsv
from core import Skip

ID = "C25"
CASES = {"quick": 600, "thorough": 9000}
REQUIRED = ["predictions", "values", "gradients", "hessians", "fits",
            "model_Asym", "model_Scobit", "model_Uneven", "model_Nested",
            "model_Mixed"]
RULE = ("A case is one random generalised model (asymmetric, scobit, uneven, "
        "nested, mixed) at its neutral parameters and the conditional logit "
        "written for the same data (outside intercepts as columns); "
        "predictions, objective, gradient and information, and the estimates "
        "with the extra parameters held fixed, of the two are compared with "
        "each other. No reference formula is involved. Distinct: "
        "configuration, weights, ridge.")
ASSUMPTIONS = ["moderate utilities (|V| <= 12)",
               "a nest parameter of 40 or more is a nest scale of one to "
               "machine precision"]
M = ("Asym", "Scobit", "Uneven", "Nested Logit", "Mixed Logit")


def twin(w):
    """The conditional logit of the same data: intercepts become columns."""
    w2 = {k: v for k, v in w.items() if k not in ("names",)}
    w2["model"] = "MNL"
    spec = OD()
    ones = "ones for intercepts"
    if w["npar"]["intercepts"]:
        spec[ones] = [a for k, a in enumerate(w["alts"]) if k != w["iref"]]
    for k, v in w["spec"].items():
        spec[k] = v
    w2["spec"], w2["names"] = spec, None
    w2["kw"] = dict(alt_id_col=w["acol"], obs_id_col=w["ocol"],
                    choice_col=w["ccol"], specification=spec,
                    model_type="MNL")
    w2["npar"] = dict(nests=0, shapes=0, intercepts=0,
                      betas=w["npar"]["intercepts"] + w["X"].shape[1])
    w2["K"] = w2["npar"]["betas"]
    w2["iref"] = w2["sref"] = w2["nest_spec"] = None
    return w2, ones


def measure(m, w, x, kw):
    with probing([("f", x), ("h", x)], final=x) as tr, quiet():
        gen.fit(m, w, x, just_point=True, **kw)
    _, v, g = tr[-1].f[0]
    return v, g, tr[-1].h[0][1] if tr[-1].h else None


def case(ctx, rng, tier, i):
    model = M[i % len(M)]
    w = gen.world(rng, model, est=True, identified=True, named=True)
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 9), int(rng.randint(1, 10 ** 6))
    w2, ones = twin(w)
    n = w["npar"]
    KX = w["X"].shape[1]
    lead = n["nests"] + n["shapes"]
    wk, wt = gen.row_weights(rng, w)
    kw = {} if wt is None else {"weights": wt}
    ridge = None if model == "Asym" else gen.pick(rng, [None, None, .5])
    if ridge is not None:
        kw["ridge"] = ridge
    nd = gen.new_data(rng, w)
    # parameters of the conditional logit: intercepts, coefficients
    th = gen.tame([w, gen.on_data(w, nd)], gen.theta(
        rng, w, vmax=gen.pick(rng, [.5, 2, 6])), vcap=8)[0]
    b = th[lead:lead + n["intercepts"] + KX]
    # ... and of the generalised model
    pre = np.zeros(lead)
    if model == "Nested Logit":
        pre = rng.uniform(40, 70, lead)
    c = np.ones(len(b))
    if model == "Asym":
        # equal shapes: every index is multiplied by log(alternatives)
        c[n["intercepts"]:] = np.log(w["J"])
    post = np.zeros(w["K"] - lead - len(b))
    x = np.concatenate([pre, b / c, post])
    own = slice(lead, lead + len(b))
    ctx.sig(w["sig"], wk, ridge)
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, theta=x)
    df2 = w["df"].copy()
    df2[ones] = 1.0
    m, m2 = gen.build(pl, w), pl.create_choice_model(data=df2, **w2["kw"])
    t = 30 * obsv.tol(w)
    # ---- objective, gradient, information
    v, g, H = measure(m, w, x, kw)
    v2, g2, H2 = measure(m2, w2, b, kw)
    wsum = float(np.sum(wt * w["choice"])) if wt is not None else w["n_obs"]
    ctx.close(v, v2, "objective at neutral parameters", rtol=1e-7,
              atol=1e-7 * (1 + wsum), model=model, theta=x)
    ctx.ev("values")
    mag = np.abs(w["X"]).max(axis=0)
    mag = np.concatenate([np.ones(n["intercepts"]), mag]) * (1 + wsum)
    ctx.close(g[own] / c, g2, "gradient at neutral parameters", rtol=t,
              atol=t * mag, model=model, theta=x)
    ctx.ev("gradients")
    if model in ("Asym", "Scobit", "Uneven"):
        ctx.close(H[own, own] / np.outer(c, c), H2, "information at neutral "
                  "parameters", rtol=t, atol=t * np.outer(mag, mag) /
                  (1 + wsum), model=model, theta=x)
        ctx.ev("hessians")
    # ---- predictions
    for df in (w["df"].copy(), nd):
        d2 = df.copy()
        d2[ones] = 1.0
        want = m2.predict(d2, param_list=[b, None, None, None])
        if model == "Mixed Logit":
            with probing([], final=x), quiet():
                gen.fit(m, w, x, ridge=1.0)
            got = m.predict(df, num_draws=int(rng.randint(2, 9)),
                            seed=int(rng.randint(1, 99)))
        else:
            got = m.predict(df, param_list=gen.param_list(w, x))
        ctx.close(got, want, "predictions at neutral parameters",
                  rtol=1e-6 if model == "Scobit" else 1e-8,
                  atol=1e-8 if model == "Scobit" else 1e-11, model=model,
                  theta=x)
        ctx.ev("predictions", len(want))
    # ---- estimation with the extra parameters held fixed
    if model != "Asym" and i % 2 == 0:
        fixed = [k for k in range(w["K"]) if not lead <= k < lead + len(b)]
        kw = dict(kw, ridge=float(gen.pick(rng, [.3, 1., 4.])),
                  method=gen.pick(rng, ["BFGS", "L-BFGS-B"]),
                  gradient_tol=1e-7, loss_tol=1e-12)
        s = np.concatenate([pre, np.zeros(len(b)), post])
        with record() as tr, quiet():
            r = gen.fit(m, w, s, just_point=True, constrained_pos=fixed,
                        **kw)
            r2 = gen.fit(m2, w2, np.zeros(len(b)), just_point=True, **kw)
        y, y2 = np.asarray(r["x"], dtype=float), np.asarray(r2["x"])
        ctx.check(np.array_equal(y[fixed], s[fixed]), "fixed parameters stay",
                  got=y[fixed], expected=s[fixed])
        if np.abs(g_norm(tr[0], y)) > 1e-3 or np.abs(g_norm(tr[1], y2)) > 1e-3:
            raise Skip("optimizer stopped early")
        # the penalised objective is strongly concave: the two maximisers
        # differ by at most (sum of gradient norms) / (2 ridge)
        gap = (g_norm(tr[0], y) + g_norm(tr[1], y2)) / kw["ridge"]
        ctx.close(y[own], y2, "estimates with the extra parameters fixed are "
                  "those of the conditional logit", rtol=1e-5,
                  atol=1e-6 + gap + t * mag.max() / kw["ridge"], model=model)
        ctx.ev("fits")
    ctx.ev("model_" + model.split()[0])


def g_norm(tr, x):
    return float(np.linalg.norm(tr.eval_f(x)[1]))
