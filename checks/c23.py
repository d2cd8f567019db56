import contextlib
from common import np, pd, pl, mlc, probing, record
import gen
import ref
import obsv
import c05
from core import Skip

ID = "C23"
CASES = {"quick": 700, "thorough": 12000}
REQUIRED = ["replicated", "removed", "unit_weights", "rescaled", "additive",
            "points_compared", "hessians_compared", "reported_compared",
            "estimates_compared", "zero_weight_observations"]
RULE = ("A case estimates one random model (all seven types, ridge, fixed "
        "parameters, choice sets) in two ways that the weights make "
        "equivalent: integer weights against repeated observations, zero "
        "weights against left-out observations, unit weights against none, "
        "rescaled weights against scaled objectives, a sum of weights "
        "against the sum of objectives. Objective, gradient and Hessian "
        "handed to the optimizer, and the reported log-likelihoods and "
        "matrices, are compared at several points, and estimates found "
        "under one form are checked under the other. Distinct: "
        "configuration, relation, weights, ridge, fixed set.")
ASSUMPTIONS = ["mixed logit replication: copies of an individual get the "
               "draws of the original individual (draws supplied at "
               "mixed_logit_calcs.get_normal_draws; not compared when the "
               "code draws elsewhere)",
               "weights constant within observation (individual for mixed "
               "logit)", "every alternative still occurs after removal"]


def unit_index(w):
    return w["mix_idx"] if w["model"] == "Mixed Logit" else w["obs_idx"]


def replicate(rng, w, u):
    """Data with unit k repeated u[k] times; and the original unit behind each
    unit of the new data (in order of first appearance)."""
    df = w["df"].copy()
    df.index = np.arange(len(df))
    mixed = w["model"] == "Mixed Logit"
    unit_of_obs = {}
    for o, k in zip(w["obs_idx"], unit_index(w)):
        unit_of_obs[int(o)] = int(k)
    jobs = []
    layout = gen.pick(rng, ["consecutive", "blocks"])
    for o in range(w["n_obs"]):
        for r in range(int(u[unit_of_obs[o]])):
            jobs.append((o, r) if layout == "consecutive" else (r, o))
    if layout == "blocks":
        jobs = [(o, r) for r, o in sorted(jobs)]
    parts, origin, seen = [], [], set()
    new_id = int(rng.randint(-5, 50))
    for o, r in jobs:
        p = df.loc[w["obs_idx"] == o].copy()
        new_id += int(rng.randint(1, 4))
        p[w["ocol"]] = new_id
        k = unit_of_obs[o]
        if mixed:
            p[w["pcol"]] = [x + "+" * r if isinstance(x, str) else
                            x + 1000 * r for x in p[w["pcol"]].tolist()]
        if not mixed or (k, r) not in seen:
            seen.add((k, r))
            origin.append(k)
        parts.append(p)
    out = pd.concat(parts, axis=0)
    out, _ = gen.reindex(rng, out)
    return out, np.array(origin), layout


@contextlib.contextmanager
def given_draws(draws):
    """Hands out fixed draws wherever the library asks for normal draws."""
    real = mlc.get_normal_draws
    calls = []

    def fake(*a, **k):
        calls.append(1)
        return [d.copy() for d in draws]
    mlc.get_normal_draws = fake
    try:
        yield calls
    finally:
        mlc.get_normal_draws = real


def evaluate(w, df, pts, final, kw, draws):
    """Objective, gradient, Hessian at pts and reported results at final."""
    m = gen.build(pl, w, df.copy())
    script = []
    for p in pts:
        script += [("f", p), ("h", p)]
    calls = [1]
    with contextlib.ExitStack() as st:
        if draws is not None:
            calls = st.enter_context(given_draws(draws))
        try:
            with probing(script, final=final) as tr:
                gen.fit(m, w, pts[0], **kw)
            full = True
        except np.linalg.LinAlgError:
            m = gen.build(pl, w, df.copy())
            with probing(script, final=final) as tr:
                gen.fit(m, w, pts[0], just_point=True, **kw)
            full = False
    if not calls:
        raise Skip("draws are made elsewhere")
    return m, tr[0], full


def combine(trs, coef):
    """Coefficient-weighted sum of traces: list of (x, f, g), list of (x, H)"""
    n, k = len(trs[0].f), len(trs[0].h)
    f = [(trs[0].f[i][0], sum(c * t.f[i][1] for c, t in zip(coef, trs)),
          sum(c * t.f[i][2] for c, t in zip(coef, trs))) for i in range(n)]
    h = [(trs[0].h[i][0], sum(c * t.h[i][1] for c, t in zip(coef, trs)))
         for i in range(k)]
    return f, h


def compare(ctx, w, A, B, what, mag, fixed):
    """A, B: (f list, h list). mag: size of the summed absolute terms."""
    for (x, fa, ga), (_, fb, gb) in zip(A[0], B[0]):
        ctx.close(fa, fb, what + ": log-likelihood", rtol=1e-9,
                  atol=1e-9 * mag, theta=x)
        s = 1 + np.abs(ga).max() + mag
        ctx.close(ga, gb, what + ": gradient", rtol=1e-8, atol=1e-8 * s,
                  theta=x)
        ctx.ev("points_compared")
    free = [k for k in range(w["K"]) if k not in set(fixed)]
    for (x, ha), (_, hb) in zip(A[1], B[1]):
        ha, hb = ha[np.ix_(free, free)], hb[np.ix_(free, free)]
        if not free:
            continue
        ctx.close(ha, hb, what + ": Hessian", rtol=1e-8,
                  atol=1e-8 * (1 + np.abs(hb).max()), theta=x)
        ctx.ev("hessians_compared")


def reported(ctx, w, a, b, what, fixed, ridge, scale=1.0):
    for at in ("log_likelihood", "null_log_likelihood"):
        if ridge is None or scale == 1:
            ctx.close(getattr(a, at), scale * getattr(b, at),
                      what + ": reported " + at, rtol=1e-8, atol=1e-8)
    free = [k for k in range(w["K"]) if k not in set(fixed)]
    ats = ["hessian"]
    if ridge is None and w["model"] in ref.LOGIT:
        ats.append("fisher_information")
    for at in ats:
        x = np.asarray(getattr(a, at), dtype=float)[np.ix_(free, free)]
        y = np.asarray(getattr(b, at), dtype=float)[np.ix_(free, free)]
        if free:
            ctx.close(x, scale * y, what + ": reported " + at, rtol=1e-7,
                      atol=1e-8 * (1 + np.abs(scale * y).max()))
    ctx.ev("reported_compared")


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = gen.world(rng, model, est=True, identified=rng.rand() < .8,
                  n=int(rng.randint(6, 18)))
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 6), int(rng.randint(1, 10 ** 6))
    mixed = model == "Mixed Logit"
    draws = gen.draws_for(mlc, w) if mixed else None
    rel = gen.pick(rng, ["integer", "integer", "remove", "remove+", "unit",
                         "scale", "additive"])
    ridge = gen.pick(rng, [None, None, .5]) if rel in (
        "integer", "remove", "remove+", "unit") else None
    cons = c05.pick_fixed(rng, w)
    fixed = c05.all_fixed(w, cons)
    kw = {} if ridge is None else {"ridge": ridge}
    if cons is not None:
        kw["constrained_pos"] = list(cons)
    pts = [gen.tame([w], gen.theta(rng, w, vmax=gen.pick(
        rng, [.2, 1, 3])), vcap=5)[0] for _ in range(2)]
    final = pts[1]
    idx = unit_index(w)
    nu = int(idx.max()) + 1
    ctx.sig(w["sig"], rel, ridge, cons)
    ctx.sample(config=w["sig"], relation=rel, ridge=ridge, fixed=cons)

    def mag(u):
        return 1 + float(np.sum(np.asarray(u) * np.abs(ref.obs_loglik(
            w, pts[0], draws)))) + (ridge or 0) * float(np.sum(
                (np.abs(pts[0]) + 20) ** 2))

    def run(u, df=None, d=None):
        k = dict(kw)
        if u is not None:
            k["weights"] = np.asarray(u, dtype=gen.pick(
                rng, [float, float, np.int64])
                if np.all(np.asarray(u) == np.round(u)) else float)[idx]
        return evaluate(w, w["df"] if df is None else df, pts, final, k,
                        d if d is not None else draws)
    if rel in ("integer", "remove", "remove+"):
        if rel == "integer":
            u = rng.randint(1, int(gen.pick(rng, [3, 4, 7])), nu)
        elif rel == "remove":
            u = (rng.rand(nu) < .7).astype(int)
        else:
            u = rng.randint(0, 4, nu)
        have = set(w["alt_idx"][u[idx] > 0].tolist())
        for k in range(nu):         # keep every alternative represented
            s = set(w["alt_idx"][idx == k].tolist())
            if u[k] == 0 and not s <= have:
                u[k] = 1
                have |= s
        if gen.pick(rng, [0, 1]) and rel == "remove+":
            # a zero weight at either end of the data
            for k in (0, nu - 1):
                s = set(w["alt_idx"][(u[idx] > 0) & (idx != k)].tolist())
                if s == set(range(w["J"])):
                    u[k] = 0
        dfB, origin, layout = replicate(rng, w, u)
        dB = [d[origin] for d in draws] if mixed else None
        ctx.sig(w["sig"], rel, ridge, cons, layout, tuple(u))
        a, ta, fa = run(u)
        k2 = dict(kw)
        b, tb, fb = evaluate(w, dfB, pts, final, k2, dB)
        compare(ctx, w, combine([ta], [1]), combine([tb], [1]),
                "weights %s against repeated observations" % rel, mag(u),
                fixed)
        if fa and fb:
            reported(ctx, w, a, b, "weights against repeated observations",
                     fixed, ridge)
        ctx.ev("replicated" if rel == "integer" else "removed")
        ctx.ev("zero_weight_observations", int((u == 0).sum()))
        ctx.ev("model_" + model.split()[0])
        estimates(ctx, rng, w, u, idx, kw, fixed, draws, dfB, dB, pts)
    elif rel == "unit":
        a, ta, fa = run(np.ones(nu))
        b, tb, fb = run(None)
        compare(ctx, w, combine([ta], [1]), combine([tb], [1]),
                "unit weights against none", mag(np.ones(nu)), fixed)
        if fa and fb:
            reported(ctx, w, a, b, "unit weights against none", fixed, ridge)
        ctx.ev("unit_weights")
        estimates(ctx, rng, w, np.ones(nu), idx, kw, fixed, draws, w["df"],
                  draws, pts)
    elif rel == "scale":
        u = rng.uniform(.1, 2, nu)
        if rng.rand() < .3:
            u[rng.rand(nu) < .3] = 0
            u[0] = 1
        c = float(gen.pick(rng, [.01, .5, 3, 40]))
        a, ta, fa = run(c * u)
        b, tb, fb = run(u)
        compare(ctx, w, combine([ta], [1 / c]), combine([tb], [1]),
                "rescaled weights", mag(u), fixed)
        if fa and fb:
            reported(ctx, w, a, b, "rescaled weights", fixed, ridge, c)
        ctx.ev("rescaled")
        estimates(ctx, rng, w, c * u, idx, kw, fixed, draws, None, None, pts,
                  u2=u)
    else:
        u = rng.uniform(.1, 2, nu)
        part = rng.rand(nu) < .5
        part[0], part[-1] = True, False
        if nu < 2:
            raise Skip("one unit only")
        if rng.rand() < .5:
            v = np.where(part, u, 0)
        else:
            v = u * rng.uniform(.1, .9, nu)
        a, ta, _ = run(u)
        b, tb, _ = run(v)
        c, tc, _ = run(u - v)
        compare(ctx, w, combine([ta], [1]), combine([tb, tc], [1, 1]),
                "sum of weights", mag(u), fixed)
        ctx.ev("additive")


def estimates(ctx, rng, w, u, idx, kw, fixed, draws, dfB, dB, pts, u2=None):
    """Estimates under the weights are estimates of the equivalent problem."""
    if rng.rand() > .35 or (kw.get("ridge") and w["model"] == "Nested Logit"):
        return
    st = gen.tame([w], gen.theta(rng, w, vmax=.3), vcap=2)[0]
    if rng.rand() < .5:
        st = np.where(np.isin(np.arange(w["K"]), list(fixed)), st, 0.)
    m = gen.build(pl, w)
    k = dict(kw, weights=np.asarray(u, dtype=float)[idx])
    method = gen.pick(rng, ["BFGS", "L-BFGS-B", "Newton-CG"])
    try:
        with record() as trs:
            gen.fit(m, w, st, just_point=True, method=method, maxiter=60,
                    gradient_tol=1e-6, **k)
    except np.linalg.LinAlgError as e:
        return
    if not trs or trs[0].result is None:
        return
    x = np.asarray(trs[0].result.x, dtype=float)
    if not obsv.moderate(w, x, draws=draws, vcap=6):
        return
    # the score of the weighted problem at the estimates, as seen by the
    # optimizer, and the score of the equivalent problem
    ga = trs[0].eval_f(x)[1]
    k2 = dict(kw)
    df = dfB
    if u2 is not None:
        k2["weights"] = np.asarray(u2, dtype=float)[idx]
        df, dB = w["df"], draws
    _, tb, _ = evaluate(w, df, [x], x, dict(k2, just_point=True), dB)
    gb = tb.f[0][2]
    c = 1.0
    if u2 is not None:
        c = float(np.sum(u) / np.sum(u2))
    mag = 1 + float(np.sum(np.asarray(u) * np.abs(ref.obs_loglik(
        w, x, draws))))
    ctx.close(ga, c * np.asarray(gb), "the estimates solve the equivalent "
              "problem's score equations", rtol=1e-6, atol=1e-7 * mag,
              method=method)
    ctx.ev("estimates_compared")
