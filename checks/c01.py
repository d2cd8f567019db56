from common import np, pl, probing
import gen

ID = "C01"
CASES = {"quick": 900, "thorough": 12000}
REQUIRED = ["distributions", "extreme_distributions", "singletons",
            "fitted_distributions", "columns", "mixed_distributions"]
RULE = ("A case is one random model on random long data with parameters from "
        "moderate up to values that overflow every exponential; each choice "
        "situation's returned probabilities are checked to be finite, within "
        "[0,1], to sum to one, to be one for singletons, and to equal the "
        "chosen-row probabilities. Distinct: configuration and magnitude "
        "class.")
ASSUMPTIONS = ["systematic utilities themselves are finite floats"]


def check_dist(ctx, w, p, what, key):
    p = np.asarray(p, dtype=float)
    ctx.check(p.shape == (len(w["X"]),), what + ": one probability per row",
              shape=p.shape)
    ctx.check(np.all(np.isfinite(p)), what + ": probabilities finite",
              p=p, bad=np.nonzero(~np.isfinite(p))[0])
    ctx.check(np.all(p >= 0) and np.all(p <= 1 + 1e-12),
              what + ": probabilities within [0, 1]", p=p)
    s = np.zeros(w["n_obs"])
    np.add.at(s, w["obs_idx"], p)
    ctx.close(s, np.ones(w["n_obs"]), what + ": sums to one", rtol=0,
              atol=1e-9)
    cnt = np.bincount(w["obs_idx"])
    single = cnt[w["obs_idx"]] == 1
    if single.any():
        ctx.close(p[single], np.ones(single.sum()),
                  what + ": single available alternative", atol=1e-9)
        ctx.ev("singletons", single.sum())
    ctx.ev("distributions", w["n_obs"])
    if key:
        ctx.ev(key, w["n_obs"])


def magnitudes(rng, w, th):
    """Blow up parameter groups."""
    n = w["npar"]
    th = th.copy()
    k = 0
    tags = []
    for key, choices in (("nests", [1, 1, 5, 50, 1000, 1e5]),
                         ("shapes", [1, 1, 10, 300, 1e4, 1e8]),
                         ("intercepts", [1, 1, 100, 1e5]),
                         ("betas", [1, 5, 40, 200, 1e3, 1e6, 1e100])):
        if n[key]:
            f = gen.pick(rng, choices)
            th[k:k + n[key]] *= f
            tags.append("%s%g" % (key[0], f))
            k += n[key]
    return th, "".join(tags)


def chosen_of(w, p):
    out = np.zeros(w["n_obs"])
    np.add.at(out, w["obs_idx"], np.where(w["choice"] == 1, p, 0))
    return out


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    est = model == "Mixed Logit" or rng.rand() < .4
    w = gen.world(rng, model, est=est, named=True, contiguous=est,
                  scale=gen.pick(rng, [None, 30.0]))
    m = gen.build(pl, w)
    base = gen.theta(rng, w, vmax=gen.pick(rng, [1., 6.]))
    th, tag = magnitudes(rng, w, base)
    extreme = th is not base and not np.allclose(th, base)
    ctx.sig(w["sig"], tag)
    ctx.sample(config=w["sig"], magnitudes=tag, theta=th)
    nd = gen.new_data(rng, w)
    sets = [(w["df"].copy(), w), (nd, gen.on_data(w, nd))]
    kw = {}
    if model == "Mixed Logit":
        w["R"] = int(gen.pick(rng, [2, 3, 5, 8, 60, 250],
                                [.2, .2, .2, .2, .1, .1]))
        kw = dict(num_draws=w["R"], seed=int(rng.randint(1, 10 ** 6)))
        mod = base if not extreme else gen.theta(rng, w, vmax=1.)
        try:
            with probing([], final=mod):
                gen.fit(m, w, mod)
        except np.linalg.LinAlgError:
            # parameter names are extended at fit time; retry regularised
            with probing([], final=mod):
                gen.fit(m, w, mod, ridge=1.0)
    for df, ww in sets:
        for t in ([th, base] if extreme else [base]):
            plist = gen.param_list(w, t)
            p = m.predict(df.copy(), param_list=plist, **kw)
            check_dist(ctx, ww, p, "predict",
                       "extreme_distributions" if t is th else None)
            if model == "Mixed Logit":
                ctx.ev("mixed_distributions", ww["n_obs"])
            r = m.predict(df.copy(), param_list=plist,
                          choice_col=w["ccol"], **kw)
            ctx.check(isinstance(r, tuple) and len(r) == 2,
                      "predict with choice_col returns (chosen, long)")
            check_dist(ctx, ww, r[1], "predict with choice_col", None)
            ctx.close(r[0], chosen_of(ww, np.asarray(p)),
                      "chosen probabilities are those of the chosen rows",
                      rtol=1e-8, atol=1e-12)
        if model not in ("Mixed Logit", "Nested Logit"):
            C = int(gen.pick(rng, [2, 3, 4]))
            T = np.array([magnitudes(rng, w, gen.theta(rng, w))[0]
                          for _ in range(C)]).T
            P = np.asarray(m.predict(df.copy(),
                                     param_list=gen.param_list(w, T)))
            ctx.check(P.shape == (len(ww["X"]), C),
                      "one column per parameter column", shape=P.shape)
            for k in range(C):
                check_dist(ctx, ww, P[:, k], "multi-column predict",
                           "columns")
    if est and model != "Mixed Logit":
        t = base
        try:
            with probing([], final=t):
                gen.fit(m, w, t)
        except np.linalg.LinAlgError:
            return
        check_dist(ctx, w, m.long_fitted_probs, "fitted probabilities",
                   "fitted_distributions")
        ctx.close(m.fitted_probs, chosen_of(w, np.asarray(
            m.long_fitted_probs, dtype=float)),
            "fitted chosen probabilities", rtol=1e-8, atol=1e-12)
    elif est:
        L = np.asarray(m.long_fitted_probs, dtype=float)
        for r in range(L.shape[1]):
            check_dist(ctx, w, L[:, r], "fitted probabilities per draw",
                       "fitted_distributions")
