import contextlib
from common import np, pd, pl, mlc, OD, probing, record, quiet
import gen
import ref
import obsv
from core import Skip

ID = "C28"
CASES = {"quick": 700, "thorough": 6000}
ASKED = ["class", "starts", "just_point", "defaults", "written", "intercept",
         "names", "columns", "returns", "in_sample", "estimator",
         "new_individuals", "confidence", "chatter"]
REQUIRED = ["asked_" + a for a in ASKED if a != "estimator"] + ["fits"]
RULE = ("A case takes one random model and asks for the same thing in two "
        "documented ways (constructor of the class or create_choice_model; "
        "one vector of starting values or separate ones; point estimate only "
        "or a full fit; defaults left out or written out; 'all_same' and "
        "'all_diff' or the alternatives listed; intercept column created or "
        "supplied; names supplied or generated; fitted parameters, given "
        "parameters or a column of a parameter array; all forms of "
        "predict's result; fitted probabilities or prediction on the "
        "estimation data; estimator object or fit; panel prediction or "
        "prediction of new individuals; confidence intervals as frame or "
        "array; printing or not) and compares the answers. Distinct: "
        "configuration, way of asking, settings.")
ASSUMPTIONS = ["the estimator object is compared where it offers the "
               "documented convenience methods"]


def outcome(m, r=None):
    if r is not None:
        return np.asarray(r["x"], dtype=float), float(np.asarray(r["fun"]))
    return np.asarray(m.params.values, dtype=float), -float(m.log_likelihood)


def same_fit(ctx, a, b, what, det):
    ctx.close(b[0], a[0], what + ": estimates", rtol=1e-7, atol=1e-9, **det)
    ctx.close(b[1], a[1], what + ": log-likelihood", rtol=1e-9, atol=1e-9,
              **det)
    ctx.ev("fits")


def settings(rng, w):
    kw = {"maxiter": int(gen.pick(rng, [3, 8, 200]))}
    wk, wt = gen.row_weights(rng, w)
    if wt is not None:
        kw["weights"] = wt
    if rng.rand() < .5:
        kw["ridge"] = float(gen.pick(rng, [.1, 1, 5]))
    if rng.rand() < .3 and w["K"] > 1:
        kw["constrained_pos"] = [int(rng.randint(w["K"]))]
    kw["method"] = gen.pick(rng, ["BFGS", "L-BFGS-B", "CG"])
    return wk, kw


def full_fit(m, w, x, **kw):
    with quiet():
        try:
            gen.fit(m, w, x, **kw)
        except np.linalg.LinAlgError:
            raise Skip("singular Hessian")
    return m


def at(m, w, x, **kw):
    """A fitted model with the given estimates."""
    with quiet():
        try:
            with probing([], final=x):
                gen.fit(m, w, x, **kw)
        except np.linalg.LinAlgError:
            raise Skip("singular Hessian")
    return m


def probe(m, w, x, kw):
    kw = {k: v for k, v in kw.items() if k not in ("maxiter", "method")}
    with probing([("f", x), ("h", x)], final=x) as tr, quiet():
        gen.fit(m, w, x, just_point=True, **kw)
    t = tr[-1]
    return t.f[0][1], t.f[0][2], t.h[0][1] if t.h else None


def same_probe(ctx, a, b, what, det):
    s = float(np.abs(a[1]).max()) + abs(a[0])
    ctx.close(b[0], a[0], what + ": objective", rtol=1e-9, atol=1e-9, **det)
    ctx.close(b[1], a[1], what + ": gradient", rtol=1e-7, atol=1e-9 * s,
              **det)
    if a[2] is not None and b[2] is not None:
        ctx.close(b[2], a[2], what + ": Hessian", rtol=1e-7,
                  atol=1e-9 * (s + np.abs(a[2]).max()), **det)


def cls(model):
    from pylogit import (conditional_logit, asym_logit, clog_log, scobit,
                         uneven_logit, nested_logit, mixed_logit)
    return {"MNL": conditional_logit.MNL, "Asym": asym_logit.MNAL,
            "Cloglog": clog_log.MNCL, "Scobit": scobit.MNSL,
            "Uneven": uneven_logit.MNUL,
            "Nested Logit": nested_logit.NestedLogit,
            "Mixed Logit": mixed_logit.MixedLogit}[model]


def q_class(ctx, rng, w, th, kw, det):
    k = dict(w["kw"])
    pos = [k.pop(x) for x in ("alt_id_col", "obs_id_col", "choice_col",
                              "specification")]
    k.pop("model_type")
    m2 = cls(w["model"])(w["df"].copy(), *pos, **k)
    m = gen.build(pl, w)
    ctx.check(type(m) is type(m2) and m.model_type == m2.model_type,
              "create_choice_model gives the class of the model type",
              got=type(m).__name__, expected=type(m2).__name__)
    for a in ("ind_var_names", "intercept_names", "shape_names",
              "nest_names", "intercept_ref_position", "shape_ref_position",
              "alt_id_col", "obs_id_col", "choice_col", "mixing_vars",
              "mixing_id_col"):
        if hasattr(m, a) or hasattr(m2, a):
            ctx.check(getattr(m, a, None) == getattr(m2, a, None),
                      "same %s from the class and create_choice_model" % a,
                      got=getattr(m2, a, None), expected=getattr(m, a, None))
    with quiet():
        r = gen.fit(m, w, th, just_point=True, **kw)
        r2 = gen.fit(m2, w, th, just_point=True, **kw)
    same_fit(ctx, outcome(m, r), outcome(m2, r2), "class constructor", det)


def q_starts(ctx, rng, w, th, kw, det):
    n = w["npar"]
    k1, k2 = n["shapes"], n["shapes"] + n["intercepts"]
    sep = {"init_coefs": th[k2:].copy()}
    if n["shapes"]:
        sep["init_shapes"] = th[:k1].copy()
    if n["intercepts"]:
        sep["init_intercepts"] = th[k1:k2].copy()
    m, m2 = gen.build(pl, w), gen.build(pl, w)
    with quiet():
        with record() as t1:
            r = gen.fit(m, w, th, just_point=True, **kw)
        with record() as t2:
            r2 = m2.fit_mle(None, print_res=False, just_point=True,
                            **dict(kw, **sep))
    ctx.close(t2[0].x0, t1[0].x0, "starting point", rtol=0, atol=0, **det)
    same_fit(ctx, outcome(m, r), outcome(m2, r2), "separate starts", det)


def q_just_point(ctx, rng, w, th, kw, det):
    m = full_fit(gen.build(pl, w), w, th, **kw)
    m2 = gen.build(pl, w)
    with quiet():
        r = gen.fit(m2, w, th, just_point=True, **kw)
    same_fit(ctx, outcome(m), outcome(None, r), "point estimate only", det)
    ctx.check(getattr(m2, "params", None) is None,
              "asking for the point only stores no estimates in the model")


def q_defaults(ctx, rng, w, th, kw, det):
    kw = {k: v for k, v in kw.items() if k not in ("method", "maxiter")}
    kw2 = dict(kw)
    if rng.rand() < .7:
        kw2["method"] = "BFGS"
    if rng.rand() < .7:
        kw2["maxiter"] = 1000
    if rng.rand() < .7:
        kw2["loss_tol"] = 1e-6
    if rng.rand() < .7:
        kw2["gradient_tol"] = 1e-6
    if "ridge" not in kw:
        kw2["ridge"] = None
    if "constrained_pos" not in kw:
        kw2["constrained_pos"] = gen.pick(rng, [None, []])
    if "weights" not in kw and rng.rand() < .5:
        kw2["weights"] = None
    m, m2 = gen.build(pl, w), gen.build(pl, w)
    with quiet():
        r = gen.fit(m, w, th, just_point=True, **kw)
        r2 = gen.fit(m2, w, th, just_point=True, **kw2)
    same_fit(ctx, outcome(m, r), outcome(m2, r2), "defaults written out",
             dict(det, explicit=sorted(kw2)))


def q_chatter(ctx, rng, w, th, kw, det):
    """Printing progress changes nothing."""
    m, m2 = gen.build(pl, w), gen.build(pl, w)
    with quiet():
        r = gen.fit(m, w, th, just_point=True, print_res=False, **kw)
        r2 = gen.fit(m2, w, th, just_point=True, print_res=True, **kw)
    same_fit(ctx, outcome(m, r), outcome(m2, r2), "printing", det)


def q_written(ctx, rng, w, th, kw, det):
    """'all_same' / 'all_diff' or the alternatives listed."""
    spec = OD()
    did = 0
    for v, how in w["spec"].items():
        if how == "all_same":
            spec[v] = [[int(a) for a in rng.permutation(w["alts"])]]
            did += 1
        elif how == "all_diff":
            spec[v] = [a if rng.rand() < .5 else [a] for a in w["alts"]]
            did += 1
        else:
            spec[v] = how
    if not did:
        raise Skip("alternatives listed already")
    kw2 = dict(w["kw"], specification=spec)
    if w["names"] is not None:
        kw2["names"] = OD((v, [x] if isinstance(x, str) else x)
                          for v, x in w["names"].items())
    w2 = dict(w, kw=kw2, spec=spec)
    if w["model"] == "Mixed Logit" and w["names"] is None:
        df = w["df"] if "intercept" in w["df"].columns else \
            w["df"].assign(intercept=1.0)
        _, cn = ref.design(df, w["acol"], spec, None)
        kw2["mixing_vars"] = [cn[p] for p in w["mix_pos"]]
    m, m2 = gen.build(pl, w), gen.build(pl, w2)
    same_probe(ctx, probe(m, w, th, kw), probe(m2, w2, th, kw),
               "alternatives listed", det)
    ctx.close(np.asarray(m2.design), np.asarray(m.design), "design", rtol=0,
              atol=0, **det)


def q_intercept(ctx, rng, w, th, kw, det):
    if "intercept" not in w["spec"]:
        raise Skip("no intercept")
    a = w["df"].drop(columns=["intercept"]) \
        if "intercept" in w["df"].columns else w["df"].copy()
    b = a.assign(intercept=gen.pick(rng, [1, 1.0]))
    m, m2 = gen.build(pl, w, a.copy()), gen.build(pl, w, b.copy())
    same_probe(ctx, probe(m, w, th, kw), probe(m2, w, th, kw),
               "intercept supplied", det)
    at(m, w, th, **only(kw))
    nd = gen.new_data(rng, w)
    na = nd.drop(columns=["intercept"]) if "intercept" in nd.columns else nd
    nb = na.assign(intercept=1.0)
    k = draws_kw(rng, w)
    ctx.close(m.predict(nb.copy(), **k), m.predict(na.copy(), **k),
              "prediction data with and without intercept column",
              rtol=1e-12, atol=1e-14, **det)


def only(kw):
    return {k: v for k, v in kw.items() if k in ("weights", "ridge")}


def draws_kw(rng, w):
    if w["model"] != "Mixed Logit":
        return {}
    return dict(num_draws=int(rng.randint(2, 9)), seed=int(rng.randint(1, 99)))


def q_names(ctx, rng, w, th, kw, det):
    """Names only label."""
    k = {x: v for x, v in w["kw"].items()
         if x not in ("names", "intercept_names", "shape_names")}
    w2 = dict(w, kw=k)
    df = w["df"] if "intercept" in w["df"].columns else \
        w["df"].assign(intercept=1.0)
    if rng.rand() < .5:
        k["names"] = gen.names_for(rng, w["spec"], w["alts"])
    _, cn = ref.design(df, w["acol"], w["spec"], k.get("names"))
    if len(set(cn)) != len(cn):
        raise Skip("ambiguous names")
    if w["model"] == "Mixed Logit":
        k["mixing_vars"] = [cn[p] for p in w["mix_pos"]]
    m, m2 = gen.build(pl, w), gen.build(pl, w2)
    same_probe(ctx, probe(m, w, th, kw), probe(m2, w2, th, kw), "other names",
               det)
    at(m, w, th, **only(kw))
    at(m2, w2, th, **only(kw))
    for a in ("params", "standard_errors", "tvalues", "pvalues"):
        ctx.close(np.asarray(getattr(m2, a).values, dtype=float),
                  np.asarray(getattr(m, a).values, dtype=float),
                  a + " under other names", rtol=1e-9, atol=1e-12, **det)
    nd = gen.new_data(rng, w)
    q = draws_kw(rng, w)
    ctx.close(m2.predict(nd.copy(), **q), m.predict(nd.copy(), **q),
              "prediction under other names", rtol=1e-12, atol=1e-14, **det)


def q_columns(ctx, rng, w, th, kw, det):
    """Fitted parameters, given parameters, a column of an array."""
    m = at(gen.build(pl, w), w, th, **only(kw))
    nd = gen.new_data(rng, w)
    k = draws_kw(rng, w)
    p0 = m.predict(nd.copy(), **k)
    pls = gen.param_list(w, th)
    p1 = m.predict(nd.copy(), param_list=pls, **k)
    ctx.close(p1, p0, "fitted parameters given explicitly", rtol=1e-12,
              atol=1e-14, **det)
    if w["model"] == "Mixed Logit":
        return
    # (nested logit documents support for a single column only)
    C = 1 if w["model"] == "Nested Logit" else int(rng.randint(1, 5))
    c = int(rng.randint(C))
    T = np.array([gen.tame([w, gen.on_data(w, nd)], gen.theta(
        rng, w, vmax=2), vcap=12)[0] for _ in range(C)]).T
    T[:, c] = th
    p2 = np.asarray(m.predict(nd.copy(), param_list=gen.param_list(w, T)))
    if C == 1:
        p2 = p2.reshape(-1, 1)
    ctx.check(p2.shape == (len(nd), C), "one column per parameter column",
              got=p2.shape)
    ctx.close(p2[:, c], p0, "column of a parameter array", rtol=1e-9,
              atol=1e-12, **det)


def q_returns(ctx, rng, w, th, kw, det):
    m = at(gen.build(pl, w), w, th, **only(kw))
    nd = gen.new_data(rng, w)
    # (panel prediction and the others share the forms of the result)
    k = draws_kw(rng, w)
    ways = [m.predict]
    if w["model"] == "Mixed Logit":
        k["num_draws"], k["seed"] = w["R"], w["dseed"]
        ways.append(m.panel_predict)
    for f in ways:
        name = f.__name__
        kk = dict(k)
        if name == "panel_predict":
            a = [kk.pop("num_draws")]
        else:
            a = []
        long_ = f(nd.copy(), *a, **kk)
        both = f(nd.copy(), *a, choice_col=w["ccol"],
                 return_long_probs=True, **kk)
        ch = f(nd.copy(), *a, choice_col=w["ccol"], return_long_probs=False,
               **kk)
        ctx.check(isinstance(both, tuple) and len(both) == 2,
                  name + " returns chosen and long probabilities")
        ctx.close(both[1], long_, name + ": long probabilities", rtol=1e-12,
                  atol=1e-14, **det)
        ctx.close(both[0], ch, name + ": chosen probabilities", rtol=1e-12,
                  atol=1e-14, **det)
        _, oi = ref.order_first(nd[w["ocol"]].tolist())
        want = np.zeros(oi.max() + 1)
        np.add.at(want, oi, np.asarray(long_) *
                  nd[w["ccol"]].values.astype(float))
        ctx.close(ch, want, name + ": chosen are the chosen rows'",
                  rtol=1e-9, atol=1e-12, **det)


def q_in_sample(ctx, rng, w, th, kw, det):
    if w["model"] == "Mixed Logit":
        raise Skip("fitted probabilities use the estimation draws")
    m = at(gen.build(pl, w), w, th, **only(kw))
    ch, lo = m.predict(w["df"].copy(), choice_col=w["ccol"])
    ctx.close(lo, np.asarray(m.long_fitted_probs), "fitted probabilities are "
              "the predictions on the estimation data", rtol=1e-10,
              atol=1e-13, **det)
    ctx.close(ch, np.asarray(m.fitted_probs), "fitted probabilities of the "
              "chosen alternatives", rtol=1e-10, atol=1e-13, **det)


def q_estimator(ctx, rng, w, th, kw, det):
    if w["model"] == "Mixed Logit":
        raise Skip("needs draws")
    from pylogit import construct_estimator as ce
    kw = {k: v for k, v in kw.items() if k not in ("method", "maxiter")}
    m = gen.build(pl, w)
    a = probe(m, w, th, kw)
    m2 = gen.build(pl, w)
    k = dict(kw)
    if rng.rand() < .5:
        k["mappings"] = m2.get_mappings_for_fit()
    with quiet():
        e = ce.create_estimation_obj(m2, th.copy(), **k)
        if hasattr(e, "set_derivatives"):
            e.set_derivatives()
    if not all(hasattr(e, x) for x in ("convenience_calc_log_likelihood",
                                       "convenience_calc_gradient",
                                       "convenience_calc_hessian",
                                       "convenience_calc_probs")):
        raise Skip("no convenience methods")
    s = float(np.abs(a[1]).max()) + abs(a[0])
    ctx.close(-e.convenience_calc_log_likelihood(th.copy()), a[0],
              "estimator object: log-likelihood", rtol=1e-9, atol=1e-9,
              **det)
    free = [j for j in range(w["K"]) if j not in
            (kw.get("constrained_pos") or [])]
    if w["nest_spec"]:
        free = [j for j in free if j >= len(w["nest_spec"]) or
                len(list(w["nest_spec"].values())[j]) > 1]
    g = -np.asarray(e.convenience_calc_gradient(th.copy())).ravel()
    ctx.close(g[free], a[1][free], "estimator object: gradient", rtol=1e-7,
              atol=1e-9 * s, **det)
    ch, lo = e.convenience_calc_probs(th.copy())[:2]
    at(m, w, th, **only(kw))
    ctx.close(np.asarray(lo).ravel(), np.asarray(m.long_fitted_probs),
              "estimator object: probabilities", rtol=1e-9, atol=1e-12,
              **det)
    ctx.close(np.asarray(ch).ravel(), np.asarray(m.fitted_probs),
              "estimator object: chosen probabilities", rtol=1e-9,
              atol=1e-12, **det)
    if "constrained_pos" not in kw:
        H = np.asarray(e.convenience_calc_hessian(th.copy()), dtype=float)
        R = np.asarray(m.hessian, dtype=float)
        f = np.ix_(free, free)
        ctx.close(H[f], R[f], "estimator object: Hessian", rtol=1e-7,
                  atol=1e-9 * (s + np.abs(R).max()), **det)


def q_new_individuals(ctx, rng, w, th, kw, det):
    m = at(gen.build(pl, w), w, th, **only(kw))
    nd = gen.new_data(rng, w, overlap="none")
    R, s = w["R"], w["dseed"]
    a = m.predict(nd.copy(), num_draws=R, seed=s)
    b = m.panel_predict(nd.copy(), R, seed=s)
    ctx.close(b, a, "panel prediction of new individuals is prediction",
              rtol=1e-9, atol=1e-12, **det)


def q_confidence(ctx, rng, w, th, kw, det):
    m = at(gen.build(pl, w), w, th, **only(kw))
    alpha = float(gen.pick(rng, [.05, .1, .01, .5]))
    a = m.conf_int(alpha=alpha)
    b = m.conf_int(alpha=alpha, return_df=True)
    ctx.close(np.asarray(b.values, dtype=float), np.asarray(a, dtype=float),
              "confidence intervals as frame", rtol=0, atol=0, **det)
    j = [int(x) for x in rng.permutation(w["K"])[:int(rng.randint(
        1, w["K"] + 1))]]
    c = m.conf_int(alpha=alpha, coefs=[list(m.params.index)[x] for x in j])
    if len(set(m.params.index)) == w["K"]:
        ctx.close(np.asarray(c, dtype=float), np.asarray(a)[j],
                  "confidence intervals of some parameters", rtol=0, atol=0,
                  **det)
    if alpha == .05:
        ctx.close(np.asarray(m.conf_int(), dtype=float), np.asarray(a),
                  "default level", rtol=0, atol=0, **det)


def case(ctx, rng, tier, i):
    ask = ASKED[i % len(ASKED)]
    models = {"starts": ["Asym", "Cloglog", "Scobit", "Uneven"],
              "new_individuals": ["Mixed Logit"],
              "in_sample": gen.MODELS[:6],
              "estimator": gen.MODELS[:6]}.get(ask, gen.MODELS)
    model = models[(i // len(ASKED)) % len(models)]
    for _ in range(30):
        w = gen.world(rng, model, est=True, named=True, nmax=2,
                      identified=rng.rand() < .8)
        if ask == "intercept" and "intercept" not in w["spec"]:
            continue
        if ask == "written" and not any(isinstance(h, str)
                                        for h in w["spec"].values()):
            continue
        break
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 7), int(rng.randint(1, 10 ** 6))
    wk, kw = settings(rng, w)
    cap = obsv.VCAP.get(model, 12.0)
    th = gen.tame([w], gen.theta(rng, w, vmax=gen.pick(rng, [.3, 1, 3])),
                  vcap=cap)[0]
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    if not obsv.moderate(w, th, cap + .5, draws):
        raise Skip("extreme point")
    if ask in ("written", "intercept", "names", "columns", "returns",
               "in_sample", "new_individuals", "confidence"):
        kw.pop("constrained_pos", None)
    show = {k: v for k, v in kw.items() if k != "weights"}
    ctx.sig(w["sig"], ask, wk, sorted(show.items(), key=str))
    ctx.sample(config=w["sig"], asked=ask, weights=wk, settings=show,
               theta=th)
    det = dict(model=model, asked=ask, theta=th, weights=wk, settings=show)
    globals()["q_" + ask](ctx, rng, w, th, kw, det)
    ctx.ev("asked_" + ask)
