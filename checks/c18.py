import scipy.stats
import scipy.sparse
from common import np, pd, pl, mlc, probing, record, quiet
import gen
import ref
import obsv
from core import Skip

ID = "C18"
CASES = {"quick": 480, "thorough": 9000}
REQUIRED = ["draw_sets", "distribution_tests", "predictions",
            "likelihood_points", "designs", "repeated_predictions",
            "repeated_fits", "interleaved_panels", "draws_underflowing_partly", "integer_designs",
            "multi_observation_individuals"]
RULE = ("A case is one random panel dataset, mixed specification, seed and "
        "number of draws; the draws used are checked for their distribution "
        "and reproducibility, and design, predictions and likelihood are "
        "recomputed row by row from those draws (individuals numbered in "
        "order of first appearance). Distinct: configuration, panel layout, "
        "draws, number of mixed coefficients.")
ASSUMPTIONS = ["the draw generator is the one exposed by mixed_logit_calcs; "
               "its output is itself tested (mean, variance, shape, "
               "independence across variables, individuals and draws)",
               "num_draws >= 2"]


def fitted(w, th, ridge=1.0, **kw):
    m = gen.build(pl, w)
    with probing([], final=th), quiet():
        gen.fit(m, w, th, ridge=ridge, **kw)
    return m


def draws_ok(ctx, rng):
    n, R = gen.pick(rng, [
        (int(rng.randint(40, 90)), int(rng.randint(40, 90))),
        (int(rng.randint(3, 12)), int(rng.randint(400, 900))),
        (int(rng.randint(400, 900)), int(rng.randint(3, 12))),
        (int(rng.randint(100, 250)), int(rng.randint(100, 400)))],
        [.3, .3, .3, .1])
    V = 3
    seed = int(rng.randint(1, 10 ** 8))
    np.random.seed(int(rng.randint(1, 10 ** 6)))
    a = mlc.get_normal_draws(n, R, V, seed=seed)
    for _ in range(int(rng.randint(1, 4))):
        np.random.rand(int(rng.randint(1, 50)))
    b = mlc.get_normal_draws(n, R, V, seed=seed)
    c = mlc.get_normal_draws(n, R, V, seed=seed + 1)
    ctx.check(len(a) == V and all(np.shape(x) == (n, R) for x in a),
              "one (individuals x draws) array per variable",
              got=[np.shape(x) for x in a])
    ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)),
              "same seed, same draws")
    ctx.check(not any(np.array_equal(x, y) for x, y in zip(a, c)),
              "another seed, other draws")
    allx = np.concatenate([x.ravel() for x in a])
    N = len(allx)
    for x, n_ in [(x.ravel(), n * R) for x in a] + [(allx, N)]:
        ctx.check(abs(x.mean()) < 6 / np.sqrt(n_), "mean zero", got=x.mean())
        ctx.check(abs(x.mean()) > 1e-9 / np.sqrt(n_), "draws are not "
                  "recentred", got=x.mean())
        ctx.check(abs(x.var() - 1) < 6 * np.sqrt(2.0 / n_), "variance one",
                  got=x.var())
        ctx.check(scipy.stats.kstest(x, "norm")[1] > 1e-8, "normal shape")
    lim = 6.0 / np.sqrt(n * R)
    for i in range(V):
        for j in range(i):
            ctx.check(abs(np.mean(a[i] * a[j])) < lim,
                      "independent across variables",
                      got=np.mean(a[i] * a[j]))
        x = a[i]
        ctx.check(abs(np.mean(x[1:] * x[:-1])) < lim * 1.1,
                  "independent across individuals")
        ctx.check(abs(np.mean(x[:, 1:] * x[:, :-1])) < lim * 1.1,
                  "independent across draws")
        ctx.check(len(np.unique(x)) > .99 * x.size, "draws are distinct")
        # individual and draw means spread as independent normals would
        for ax, m in ((0, n), (1, R)):
            s = x.mean(axis=ax)
            q = np.sum(s ** 2) * m
            p = scipy.stats.chi2.sf(q, len(s))
            ctx.check(1e-9 < p < 1 - 1e-9, "no common component in rows or "
                      "columns", p=p)
    for z in (2.0, 3.0, 3.5):
        e = N * 2 * scipy.stats.norm.sf(z)
        if e > 30:
            k = int(np.sum(np.abs(allx) > z))
            ctx.check(scipy.stats.poisson.cdf(k, e) > 1e-9 and
                      scipy.stats.poisson.sf(k - 1, e) > 1e-9,
                      "as many extreme draws as a normal has", beyond=z,
                      got=k, expected=e)
            ctx.ev("tail_tests")
    ctx.ev("draw_sets", 3)
    ctx.ev("distribution_tests", V)


def straddling(w, x, draws):
    """A multiple of x at which some draws of an individual's sequence
    underflow and others do not."""
    for k in range(60):
        y = x * 1.12 ** k
        if not obsv.moderate(w, y, vcap=150.0, draws=draws):
            return None
        seq = ref.mixed_log_seq(w, y, draws)[1].real
        if (seq.min(axis=1) < -700).any():
            return y
    return None


def case(ctx, rng, tier, i):
    if i % 12 == 0:
        draws_ok(ctx, rng)
    w = gen.world(rng, "Mixed Logit", est=True, identified=rng.rand() < .5,
                  smooth=False)
    if rng.rand() < .3:
        df = w["df"]
        for v in w["spec"]:
            if v in df.columns:
                df[v] = np.round(df[v].values * 2).astype(int)
        w = gen.on_data(w, df)
        ctx.ev("integer_designs")
    if w["kinds"]["panel"].startswith("interleaved"):
        ctx.ev("interleaved_panels")
    R = int(gen.pick(rng, [2, 3, 7, 20, 80, 300],
                     [.25, .25, .25, .15, .06, .04]))
    seed = int(rng.randint(1, 10 ** 7))
    w["R"], w["dseed"] = R, seed
    draws = gen.draws_for(mlc, w)
    th = gen.theta(rng, w, vmax=gen.pick(rng, [.5, 2., 4.]))
    ctx.sig(w["sig"], R, len(w["mix_pos"]))
    ctx.sample(config=w["sig"], draws=R, mixed=len(w["mix_pos"]),
               individuals=w["n_mix"], observations=w["n_obs"])
    if w["n_mix"] < w["n_obs"]:
        ctx.ev("multi_observation_individuals")
    # ---- likelihood: average over draws of the product over choices
    m = gen.build(pl, w)
    pts = [th] + [gen.theta(rng, w, vmax=2.) for _ in range(2)]
    if w["kinds"]["panel"].startswith("long"):
        x = gen.theta(rng, w, vmax=1.)
        x[-len(w["mix_pos"]):] *= 3
        x = straddling(w, x, draws)
        if x is not None:
            pts.append(x)
            ctx.ev("draws_underflowing_partly")
    with probing([("f", x) for x in pts], final=th) as trs, quiet():
        gen.fit(m, w, th, ridge=1.0)
    for x, v, g in trs[-1].f:
        if not obsv.moderate(w, x, vcap=150.0, draws=draws):
            continue
        obsv.check_value(ctx, w, x, v, None, 1.0, draws, "simulated "
                         "likelihood: average over draws of the product of "
                         "an individual's choice probabilities")
        ctx.ev("likelihood_points")
    ctx.check(list(m.params.index) == w["pnames"] and np.array_equal(
        np.asarray(m.params.values, dtype=float), th), "parameters: means "
        "then standard deviations", got=list(m.params.index),
        expected=w["pnames"])
    # ---- expanded design with arbitrary draws and assignments
    if rng.rand() < .5:
        fake = [rng.normal(size=(w["n_mix"], R)) for _ in w["mix_pos"]]
        rows = scipy.sparse.csr_matrix(
            (np.ones(len(w["X"])), (np.arange(len(w["X"])), w["mix_idx"])),
            shape=(len(w["X"]), w["n_mix"]))
        X = w["X"].copy()
        if rng.rand() < .3 and np.array_equal(X, np.round(X)):
            X = X.astype(int)
        D = mlc.create_expanded_design_for_mixing(X, fake, w["mix_pos"],
                                                  rows)
        want = np.concatenate(
            [np.repeat(w["X"][:, None, :], R, axis=1)] +
            [(w["X"][:, [p]] * fake[k][w["mix_idx"], :])[:, :, None]
             for k, p in enumerate(w["mix_pos"])], axis=2)
        ctx.close(D, want, "expanded design", rtol=1e-12, atol=1e-14)
        ctx.check(np.array_equal(X, w["X"]), "design untouched")
        ctx.ev("designs")
    # ---- predictions on the estimation data and on other data
    for df in [w["df"].copy(), gen.new_data(rng, w)]:
        ww = gen.on_data(w, df)
        R2 = int(gen.pick(rng, [2, 5, 13, 70, 400], [.3, .3, .25, .1, .05]))
        s2 = int(rng.randint(1, 10 ** 7))
        dr = gen.draws_for(mlc, w, df_world=ww, R=R2, seed=s2)
        use = rng.rand() < .5
        t = gen.theta(rng, w, vmax=2.) if use else th
        kw = dict(num_draws=R2, seed=s2)
        if use:
            kw["param_list"] = gen.param_list(w, t)
        np.random.seed(int(rng.randint(1, 10 ** 6)))
        p = np.asarray(m.predict(df.copy(), **kw), dtype=float)
        np.random.rand(int(rng.randint(1, 9)))
        p2 = np.asarray(m.predict(df.copy(), **kw), dtype=float)
        ctx.check(np.array_equal(p, p2), "same seed, same predictions",
                  diff=np.abs(p - p2).max())
        ctx.ev("repeated_predictions")
        if not obsv.moderate(ww, t, draws=dr):
            continue
        want = np.exp(ref.mixed_log_probs(ww, t, dr)).mean(axis=1)
        ctx.close(p, want, "prediction is the average over draws of the "
                  "conditional logit probabilities", rtol=1e-8, atol=1e-12,
                  theta=t)
        ctx.ev("predictions", len(p))
        c = m.predict(df.copy(), choice_col=w["ccol"],
                      return_long_probs=False, **kw)
        wc = np.zeros(ww["n_obs"])
        np.add.at(wc, ww["obs_idx"], want * ww["choice"])
        ctx.close(c, wc, "predictions of the chosen alternatives", rtol=1e-8,
                  atol=1e-12)
        p3 = np.asarray(m.predict(df.copy(), **dict(kw, seed=s2 + 1)))
        live = np.abs(ref.mixed_log_probs(ww, t, dr).std(axis=1)).max()
        if live > 1e-3:
            ctx.check(not np.array_equal(p, p3), "another seed, other draws")
    # ---- estimation is reproducible
    if i % 4 == 0:
        out = []
        for k in range(2):
            np.random.seed(k + 1)
            mm = gen.build(pl, w)
            with record() as tr, quiet():
                try:
                    r = mm.fit_mle(th.copy(), num_draws=R, seed=seed,
                                   ridge=.5, maxiter=4, just_point=True,
                                   print_res=False)
                except (np.linalg.LinAlgError, ValueError) as e:
                    obsv.optimizer_failure(ctx, w, tr, e, draws)
            out.append((np.asarray(r["x"]), [f[1] for f in tr[0].f]))
        ctx.check(np.array_equal(out[0][0], out[1][0]) and
                  out[0][1] == out[1][1], "same seed, same estimation",
                  a=out[0][0], b=out[1][0])
        ctx.ev("repeated_fits")
