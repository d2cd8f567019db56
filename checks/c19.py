from common import np, pd, pl, mlc, probing, quiet
import gen
import ref
import obsv
import c18
from core import Skip

ID = "C19"
CASES = {"quick": 600, "thorough": 12000}
REQUIRED = ["rows_conditioned", "rows_unconditioned", "overlap_all",
            "overlap_some", "overlap_none", "reordered_individuals",
            "chosen_probabilities", "repeated_predictions",
            "informative_weights", "several_past_choices"]
RULE = ("A case is one mixed logit model with parameters on one panel, and "
        "a second dataset whose individuals overlap fully, partly or not at "
        "all with it, in other orders; every row's panel prediction is "
        "recomputed with draw weights from the individual's own past choices "
        "under the same draws. Distinct: configuration, overlap, draws, "
        "order.")
ASSUMPTIONS = ["draws are those of the public generator for the seed (C18), "
               "one set per individual in order of first appearance in the "
               "prediction data",
               "the observed choice sequences have positive simulated "
               "probability"]


def second_panel(rng, w, ov):
    df = gen.new_data(rng, w, overlap="same")
    pc = w["pcol"]
    ids = list(pd.unique(df[pc]))
    old = list(pd.unique(w["df"][pc]))
    pool = list(old)
    fresh = [gen.person(old[0], int(x)) for x in rng.choice(np.arange(500, 999), len(ids),
                                        replace=False)]
    if ov == "all":
        new = [pool[int(k)] for k in rng.permutation(len(pool))[:len(ids)]]
    elif ov == "none":
        new = fresh
    else:
        p = [pool[int(k)] for k in rng.permutation(len(pool))]
        new = [p[k] if rng.rand() < .5 else fresh[k]
               for k in range(len(ids))]
    df[pc] = df[pc].map(dict(zip(ids, new)))
    # several observations of one new individual, in any row order
    return df


def case(ctx, rng, tier, i):
    w = gen.world(rng, "Mixed Logit", est=True, identified=rng.rand() < .5)
    ov = ["all", "some", "none", "some"][i % 4]
    df = second_panel(rng, w, ov)
    if rng.rand() < .15:
        df, ov = w["df"].copy(), "all"
    ww = gen.on_data(w, df)
    R = int(gen.pick(rng, [2, 3, 8, 25, 110, 520], [.25, .25, .25, .19, .05, .01]))
    seed = int(rng.randint(1, 10 ** 7))
    dr = gen.draws_for(mlc, w, df_world=ww, R=R, seed=seed)
    th = gen.theta(rng, w, vmax=gen.pick(rng, [.5, 2., 4.]))
    w["R"], w["dseed"] = 4, 5
    if not obsv.moderate(ww, th, draws=dr):
        raise Skip("utilities outside the moderate range")
    old_ids = [x for x in w["mix_order"]]
    new_ids = [x for x in ww["mix_order"]]
    both = [x for x in new_ids if x in set(old_ids)]
    kind = "all" if len(both) == len(new_ids) else \
        "none" if not both else "some"
    ctx.sig(w["sig"], kind, R, len(w["mix_pos"]))
    ctx.sample(config=w["sig"], overlap=kind, draws=R, old=len(old_ids),
               new=len(new_ids))
    ctx.ev("overlap_" + kind)
    pos = [old_ids.index(x) for x in both]
    if pos != sorted(pos):
        ctx.ev("reordered_individuals")
    # ---- reference: posterior weights of the draws
    W = np.full((len(new_ids), R), 1.0 / R)
    po = w["df"][w["pcol"]].values
    for k, x in enumerate(new_ids):
        if x not in set(old_ids):
            continue
        one = np.nonzero(po == x)[0]
        wo = dict(w, X=w["X"][one], choice=w["choice"][one],
                  mix_idx=np.zeros(len(one), dtype=int), n_mix=1)
        oo, wo["obs_idx"] = ref.order_first(w["obs_idx"][one].tolist())
        wo["n_obs"] = len(oo)
        lp = ref.mixed_log_probs(wo, th, [d[[k], :] for d in dr])
        ls = (lp * wo["choice"][:, None]).sum(axis=0)
        if ls.min() < -500:
            raise Skip("an observed sequence has vanishing probability")
        e = np.exp(ls - ls.max())
        W[k] = e / e.sum()
        if W[k].max() > 1.5 / R:
            ctx.ev("informative_weights")
        if wo["n_obs"] > 1:
            ctx.ev("several_past_choices")
    P = np.exp(ref.mixed_log_probs(ww, th, dr))
    want = (P * W[ww["mix_idx"]]).sum(axis=1)
    m = c18.fitted(w, th)
    np.random.seed(int(rng.randint(1, 10 ** 6)))
    with quiet():
        p = np.asarray(m.panel_predict(df.copy(), R, seed=seed), dtype=float)
        np.random.rand(3)
        q = m.panel_predict(df.copy(), R, choice_col=w["ccol"], seed=seed)
        c = m.panel_predict(df.copy(), num_draws=R, choice_col=w["ccol"],
                            return_long_probs=False, seed=seed)
    ctx.close(p, want, "panel prediction", rtol=1e-7, atol=1e-11, theta=th,
              overlap=kind)
    isnew = np.array([x not in set(old_ids) for x in new_ids])
    ctx.ev("rows_conditioned", int((~isnew[ww["mix_idx"]]).sum()))
    ctx.ev("rows_unconditioned", int(isnew[ww["mix_idx"]].sum()))
    ctx.check(isinstance(q, tuple) and len(q) == 2 and
              np.array_equal(np.asarray(q[1]), p), "same seed, same "
              "predictions, with the chosen ones first")
    ctx.ev("repeated_predictions")
    wc = np.zeros(ww["n_obs"])
    np.add.at(wc, ww["obs_idx"], want * ww["choice"])
    for x in (q[0], c):
        ctx.close(x, wc, "panel predictions of the chosen alternatives",
                  rtol=1e-7, atol=1e-11)
    ctx.ev("chosen_probabilities", len(wc))
    # ---- an individual's prediction depends on nobody else's past: with the
    # same draws, dropping another individual from the estimation data leaves
    # it alone (their own past only)
    if len(old_ids) > 2 and i % 3 == 0:
        gone = old_ids[int(rng.randint(len(old_ids)))]
        keep = po != gone
        d2 = w["df"].loc[keep]
        if set(d2[w["acol"]].tolist()) == set(w["alts"]):
            w2 = gen.on_data(w, d2)
            w2["df"] = d2
            m2 = c18.fitted(w2, th)
            p2 = np.asarray(m2.panel_predict(df.copy(), R, seed=seed))
            W2 = W.copy()
            if gone in new_ids:
                W2[new_ids.index(gone)] = 1.0 / R
            ctx.close(p2, (P * W2[ww["mix_idx"]]).sum(axis=1),
                      "panel prediction after another individual left the "
                      "estimation data", rtol=1e-7, atol=1e-11)
            ctx.ev("other_individual_removed")
