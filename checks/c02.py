from common import np, pl, probing
import gen
import ref

ID = "C02"
CASES = {"quick": 1000, "thorough": 14000}
REQUIRED = ["prob_rows_param_list", "prob_rows_fitted", "prob_columns",
            "chosen_probs", "integer_parameters"]
RULE = ("A case is one random model (six closed-form families) on random "
        "long data (ids, choice sets, orders, reference positions, nests) "
        "with random parameters (|V| up to 20, or up to 300 where no overflow guard is documented); every row probability "
        "returned by predict() (explicit 1D and multi-column parameters, "
        "fitted parameters, same and new data) is compared with an "
        "independent log-domain implementation. Distinct: configuration "
        "signature; non-trivial: at least one probability row compared.")
ASSUMPTIONS = ["reference formulas in lib/ref.py",
               "moderate utilities |V| <= 20 (Scobit/Clog-log saturate later)"]
M = ("MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit")


def tol_for(model, vmax):
    if model in ("Cloglog", "Scobit"):
        # log(1 - exp(-exp(v))) style cancellation grows like exp(|v|)*eps
        return 1e-8 + 8e-16 * np.exp(min(vmax, 30)) * 4
    return 1e-8


def cmp_probs(ctx, w2, th, got, what, vmax):
    want = np.exp(ref.log_probs(w2, th).real)
    t = tol_for(w2["model"], vmax)
    ctx.close(got, want, what, rtol=t, atol=1e-13 + t * 1e-3)
    return want


def chosen(w2, p):
    out = np.zeros(w2["n_obs"])
    np.add.at(out, w2["obs_idx"], p * w2["choice"])
    return out


def case(ctx, rng, tier, i):
    model = M[i % len(M)]
    est = rng.rand() < .5
    w = gen.world(rng, model, est=est, named=True if i % 3 else None,
                  contiguous=est, identified=rng.rand() < .5)
    ctx.sig(w["sig"])
    low = model == "Uneven" and rng.rand() < .15
    if low:
        # very unattractive alternatives whose flat shapes keep the
        # transformed utilities moderate
        df = w["df"].copy()
        for v in w["vn"]:
            df[v] = df[v].abs()
        w["df"] = df
        w = gen.on_data(w, df)
    m = gen.build(pl, w)
    top = [.2, 1, 3, 8, 20]
    cap = 20.0
    if model not in ('Cloglog', 'Scobit') and rng.rand() < .2:
        top, cap = [60, 250], 300.0
    vmax = gen.pick(rng, top)
    th = gen.theta(rng, w, vmax=vmax)
    if model == "Uneven" and rng.rand() < .15:      # steep shapes
        th[:w["npar"]["shapes"]] += rng.uniform(0, 5, w["npar"]["shapes"])
        ctx.ev("steep_shapes")
    if low:
        k = w["npar"]["shapes"]
        b = w["X"].shape[1]
        th[-b:] = -np.abs(th[-b:])
        th[-b:] *= rng.uniform(800, 2500) / np.abs(w["X"].dot(th[-b:])).max()
        th[:k] = rng.uniform(-8, -5, k)
        cap = 3000.0
        ctx.ev("flat_shapes")
    ctx.sample(config=w["sig"], theta=th, rows=len(w["X"]))
    datasets = [("own", w["df"].copy(), w)]
    nd = gen.new_data(rng, w)
    datasets.append(("new", nd, gen.on_data(w, nd)))
    th, vm = gen.tame([x[2] for x in datasets], th, vcap=cap,
                      best=model == "Uneven")
    pars = th
    if rng.rand() < .1:                     # whole numbers, as integers
        one, vo = gen.tame([x[2] for x in datasets], np.round(th), vcap=cap,
                      best=model == "Uneven")
        if np.array_equal(one, np.round(one)):
            th, vm, pars = one, vo, one.astype(int)
            ctx.ev("integer_parameters")
    names_ok = w["named"] or (w["npar"]["shapes"] == 0 and
                              w["npar"]["intercepts"] == 0)
    if names_ok:
        for tag, df, ww in datasets:
            p = m.predict(df.copy(), param_list=gen.param_list(w, pars))
            want = cmp_probs(ctx, ww, th, p, "predict(param_list) on %s data"
                             % tag, vm)
            ctx.ev("prob_rows_param_list", len(want))
            r = m.predict(df.copy(), param_list=gen.param_list(w, pars),
                          choice_col=w["ccol"])
            ctx.check(isinstance(r, tuple) and len(r) == 2,
                      "predict with choice_col returns (chosen, long)", got=r)
            cmp_probs(ctx, ww, th, r[1], "long probabilities with choice_col",
                      vm)
            ctx.close(r[0], chosen(ww, want), "chosen probabilities",
                      rtol=1e-6 + tol_for(model, vm), atol=1e-12)
            c = m.predict(df.copy(), param_list=gen.param_list(w, pars),
                          choice_col=w["ccol"], return_long_probs=False)
            ctx.close(c, chosen(ww, want), "chosen probabilities only",
                      rtol=1e-6 + tol_for(model, vm), atol=1e-12)
            ctx.ev("chosen_probs", ww["n_obs"])
            if model != "Nested Logit":
                C = int(gen.pick(rng, [1, 2, 3, 5, rng.randint(9, 41)],
                                 [.22, .24, .24, .22, .08]))
                ths = [th] + [gen.theta(rng, w, vmax=gen.pick(rng, [1., 4.]))
                              for _ in range(C - 1)]
                ths = [th] + [gen.tame([ww], t)[0] for t in ths[1:]]
                T = np.array(ths).T
                p2 = np.asarray(m.predict(df.copy(),
                                          param_list=gen.param_list(w, T)))
                if C == 1:
                    p2 = p2.reshape(-1, 1)
                ctx.check(p2.shape == (len(ww["X"]), C),
                          "one prediction column per parameter column",
                          shape=p2.shape)
                for k in range(C):
                    cmp_probs(ctx, ww, ths[k], p2[:, k],
                              "column of multi-column prediction", vm)
                ctx.ev("prob_columns", C)
                c2 = np.asarray(m.predict(
                    df.copy(), param_list=gen.param_list(w, T),
                    choice_col=w["ccol"], return_long_probs=False))
                c2 = c2.reshape(ww["n_obs"], C) if C == 1 else c2
                for k in range(C):
                    pk = np.exp(ref.log_probs(ww, ths[k]).real)
                    ctx.close(c2[:, k], chosen(ww, pk),
                              "chosen column of multi-column prediction",
                              rtol=1e-6 + tol_for(model, vm), atol=1e-12)
    if est:
        # fitted parameters: the optimizer stand-in reports th as solution
        try:
            with probing([], final=th):
                gen.fit(m, w, th)
        except np.linalg.LinAlgError:
            return              # singular Hessian: covered by C06/C09
        for tag, df, ww in datasets:
            p = m.predict(df.copy())
            want = cmp_probs(ctx, ww, th, p, "predict() with fitted "
                             "parameters on %s data" % tag, vm)
            ctx.ev("prob_rows_fitted", len(want))
        cmp_probs(ctx, w, th, m.long_fitted_probs, "fitted probabilities", vm)
