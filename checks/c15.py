from collections import OrderedDict as OD
from common import np, pd, pl, boot, bsamp, record, quiet
import gen
import ref
import obsv
import c05
import c07
from core import Skip

ID = "C15"
CASES = {"quick": 240, "thorough": 3600}
REQUIRED = ["bootstrap_replicates", "jackknife_replicates",
            "objective_values", "settings", "log_likelihoods",
            "gradient_norms", "both_kinds_present", "weighted_replicates",
            "fixed_replicates",
            "converged_replicates", "custom_starts", "default_starts"]
RULE = ("A case is one random model bootstrapped or jackknifed with random "
        "settings; for every replicate the optimizer trace must evaluate the "
        "reference likelihood of exactly the i-th resample (or the data "
        "without the i-th observation) under those settings and end at the "
        "reported row; log-likelihoods and gradient norms of the replicates "
        "are recomputed on the original data. Distinct: configuration, kind, "
        "weights, ridge, fixed set, optimizer.")
ASSUMPTIONS = ["the i-th sample is the one the public sampler returns for "
               "the same seed (decided by C14)",
               "reference likelihood in lib/ref.py"]
MODELS = ["MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit"]


def group_names(w):
    """Coefficient names by specification variable."""
    out, k = OD(), 0
    for v, how in w["spec"].items():
        if isinstance(how, str) and how == "all_same":
            out[v] = w["cnames"][k]
            k += 1
        else:
            m = w["J"] if isinstance(how, str) else len(how)
            out[v] = list(w["cnames"][k:k + m])
            k += m
    return out


def mnl_twin(rng, w):
    """A conditional logit whose estimates start the model's own fits."""
    spec = OD(w["spec"])
    names = group_names(w)
    df = w["df"].copy()
    if w["iref"] is not None:
        alts = [a for j, a in enumerate(sorted(w["alts"])) if j != w["iref"]]
        items = list(spec.items()) + [("intercept", alts)]
        nm = list(names.items()) + [("intercept",
                                     list(w["kw"]["intercept_names"]))]
        if rng.rand() < .5:
            items, nm = items[::-1], nm[::-1]
        spec, names = OD(items), OD(nm)
    return pl.create_choice_model(
        data=df, alt_id_col=w["acol"], obs_id_col=w["ocol"],
        choice_col=w["ccol"], specification=spec, model_type="MNL",
        names=names)


def sample_frame(w, ids):
    parts = []
    o = w["df"][w["ocol"]].values
    rows = []
    for k, x in enumerate(ids):
        r = np.nonzero(o == x)[0]
        part = w["df"].iloc[r].copy()
        part[w["ocol"]] = k + 1
        parts.append(part)
        rows.append(r)
    df = pd.concat(parts, axis=0, ignore_index=True)
    return df, np.concatenate(rows)


def check_replicate(ctx, rng, w, ws, trs, row, wt, ridge, fixed, args, cap):
    """trs: the optimizer runs of one replicate, the last one being the
    model's own. ws: reference structures of the resample."""
    tr = trs[-1]
    ctx.check(np.array_equal(np.asarray(tr.result.x), row),
              "reported replicate is the refit's solution", got=row,
              expected=tr.result.x)
    pts = [tr.f[0], tr.f[-1]] + [tr.f[int(rng.randint(len(tr.f)))]
                                 for _ in range(2)]
    for x, v, g in pts:
        if not obsv.moderate(ws, x):
            continue
        obsv.check_value(ctx, ws, x, v, wt, ridge, None,
                         "objective of a replicate is the resample's")
        ctx.ev("objective_values")
    ctx.check(str(tr.method).lower() == args["method"].lower() and
              tr.result.get("nit", 0) <= args["maxiter"],
              "replicates are estimated with the requested optimizer",
              got=(tr.method, tr.result.get("nit")), expected=args)
    ctx.ev("settings")
    last = tr.x0
    for x, v, g in tr.f:
        if np.isnan(x).all() and not obsv.moderate(ws, last):
            break                # the optimizer left the domain of floats
        last = x
        ctx.check(np.array_equal(x[fixed], tr.x0[fixed]),
                  "fixed parameters stay fixed in replicates",
                  got=x[fixed], expected=tr.x0[fixed])
    if fixed:
        ctx.ev("fixed_replicates")
    if wt is not None:
        ctx.ev("weighted_replicates")
    if tr.result.success and obsv.moderate(ws, row) and \
            args["method"] == "BFGS" and \
            not (w["model"] == "Nested Logit" and ridge):
        g, mag = ref.gradient(ws, row, wt, ridge)
        g = np.delete(g, fixed)
        mag = np.delete(mag, fixed)
        ctx.close(g, np.zeros(len(g)), "replicate is a stationary point of "
                  "the resample's likelihood", rtol=0,
                  atol=args["gradient_tol"] * 1.001 + obsv.tol(w) * mag
                  + 1e-9)
        ctx.ev("converged_replicates")


def case(ctx, rng, tier, i):
    model = MODELS[i % len(MODELS)]
    kind = "jackknife" if (i // len(MODELS)) % 3 == 2 else "bootstrap"
    J = int(gen.pick(rng, [2, 3, 4]))
    n = J * 3 + int(rng.randint(0, 6)) if kind == "bootstrap" else \
        J * 2 + int(rng.randint(2, 5))
    w = gen.world(rng, model, est=True, identified=True, named=True, J=J,
                  n=n, nmax=2, scale=gen.pick(rng, [1.0, .4]))
    df = w["df"]
    seen = df.groupby(df[w["acol"]].values)[w["ocol"]].nunique()
    chosen = df[w["acol"]].values[df[w["ccol"]].values == 1]
    if kind == "jackknife" and seen.min() < 2:
        raise Skip("an alternative occurs in one observation only")
    wk, wt = gen.row_weights(rng, w, None if kind == "bootstrap" else "none")
    ridge = gen.pick(rng, [None, None, .4])
    cons = c05.pick_fixed(rng, w)
    fixed = c05.all_fixed(w, cons)
    method = gen.pick(rng, ["BFGS", "L-BFGS-B", "Newton-CG"], [.6, .2, .2])
    args = dict(method=method, maxiter=int(gen.pick(rng, [4, 25, 60])),
                gradient_tol=gen.pick(rng, [1e-6, 1e-4]), loss_tol=1e-8)
    kw = dict(args)
    if ridge is not None:
        kw["ridge"] = ridge
    if cons is not None:
        kw["constrained_pos"] = list(cons)
    if wt is not None:
        kw["weights"] = wt.copy()
    ctx.sig(w["sig"], kind, wk, ridge, cons, method)
    ctx.sample(config=w["sig"], kind=kind, weights=wk, ridge=ridge,
               fixed=cons, args=args)
    m = gen.build(pl, w)
    mle = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=3)[0]
    b = boot.Boot(m, mle.copy())
    ctx.check(list(b.mle_params.index) == w["pnames"],
              "parameter names of the bootstrap object",
              got=list(b.mle_params.index), expected=w["pnames"])
    custom = None
    if model != "MNL":
        tw = mnl_twin(rng, w)
        kw.update(mnl_obj=tw,
                  mnl_init_vals=np.zeros(len(tw.ind_var_names)),
                  mnl_fit_kwargs={"print_res": False, "maxiter": 12,
                                  "ridge": .2})
        if rng.rand() < .5:
            custom = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=3)[0]

            def extract(orig, series, num):
                ctx.check(num == w["K"] and set(series.index) ==
                          set(tw.ind_var_names), "arguments of the starting "
                          "value function", got=(num, list(series.index)))
                return custom.copy()
            kw["extract_init_vals"] = extract
    elif rng.rand() < .5:
        custom = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=3)[0]
        kw["mnl_init_vals"] = custom.copy()
    obs = sorted(set(df[w["ocol"]].tolist()))
    try:
        with record() as trs, quiet():
            if kind == "bootstrap":
                B = int(rng.randint(2, 5))
                seed = int(rng.randint(1, 10 ** 8)) if rng.rand() < .9 else 0
                b.generate_bootstrap_replicates(B, boot_seed=seed, **kw)
                reps = b.bootstrap_replicates
            else:
                kw.pop("weights", None)
                b.generate_jackknife_replicates(**kw)
                reps = b.jackknife_replicates
                B = len(obs)
    except np.linalg.LinAlgError:
        raise Skip("singular matrix inside the optimizer")
    ctx.check(list(reps.columns) == w["pnames"], "replicate columns",
              got=list(reps.columns), expected=w["pnames"])
    ctx.check(reps.shape == (B, w["K"]), "one row per replicate",
              got=reps.shape)
    R = reps.values.astype(float)
    per = len(trs) // B
    ctx.check(per * B == len(trs) and per >= 1, "every replicate is "
              "estimated by the optimizer", runs=len(trs), replicates=B)
    if kind == "bootstrap":
        S = bsamp.create_cross_sectional_bootstrap_samples(
            df[w["ocol"]].values, df[w["acol"]].values,
            df[w["ccol"]].values, B, seed=seed)
    for r in range(B):
        if kind == "bootstrap":
            sd, rows = sample_frame(w, S[r])
        else:
            keep = df[w["ocol"]].values != obs[r]
            sd, rows = df.loc[keep], np.nonzero(keep)[0]
        ws = gen.on_data(w, sd)
        group = trs[r * per:(r + 1) * per]
        check_replicate(ctx, rng, w, ws, group, R[r],
                        None if wt is None else wt[rows], ridge, fixed, args,
                        None)
        if custom is not None:
            ctx.check(np.array_equal(group[-1].x0, custom), "replicates "
                      "start at the given values", got=group[-1].x0,
                      expected=custom)
            ctx.ev("custom_starts")
        elif model != "MNL" and per == 2:
            # default: the conditional logit's estimates on this resample,
            # matched by name (asymmetric logit: on its own scale)
            est = dict(zip(tw.ind_var_names, np.asarray(group[0].result.x)))
            npar = w["npar"]
            k1 = npar["nests"] + npar["shapes"]
            want = np.zeros(w["K"])
            for k in range(k1, w["K"]):
                want[k] = est[w["pnames"][k]]
                if model == "Asym" and k >= k1 + npar["intercepts"]:
                    want[k] /= np.log(J)
            ctx.close(group[-1].x0, want, "replicates start at the "
                      "conditional logit estimates of the same resample",
                      rtol=1e-12, atol=1e-14)
            ctx.ev("default_starts")
        ctx.ev(kind + "_replicates")
    # ---- log-likelihoods and gradient norms on the original data
    keep = [r for r in range(B) if obsv.moderate(w, R[r])]
    other = "jackknife" if kind == "bootstrap" else "bootstrap"
    if rng.rand() < .6:
        # the other kind of replicates, present as well, must not interfere
        setattr(b, other + "_replicates", pd.DataFrame(
            rng.normal(size=(B + int(rng.randint(-1, 2)), w["K"])) * .1,
            columns=w["pnames"]))
        ctx.ev("both_kinds_present")
    with quiet():
        ll = b.calc_log_likes_for_replicates(replicates=kind)
    ctx.check(np.shape(ll) == (B,), "one log-likelihood per replicate",
              got=np.shape(ll))
    want = [ref.loglik(w, R[r]) for r in keep]
    ctx.close(np.asarray(ll)[keep], want, "log-likelihoods of the replicates "
              "on the original data", rtol=1e-6, atol=1e-6)
    ctx.close(getattr(b, kind + "_log_likelihoods").values[keep], want,
              "stored log-likelihoods", rtol=1e-6, atol=1e-6)
    ctx.ev("log_likelihoods", len(keep))
    r2 = None if model == "Nested Logit" else ridge
    gk = {}
    if r2 is not None:
        gk["ridge"] = r2
    if wt is not None:
        gk["weights"] = wt.copy()
    with quiet():
        gn = b.calc_gradient_norm_for_replicates(replicates=kind, **gk)
    for r in keep:
        g, mag = ref.gradient(w, R[r], wt, r2)
        tol = 1e-7 + 2 * obsv.tol(w) * np.linalg.norm(mag)
        ctx.close(gn[r], np.linalg.norm(g), "gradient norm of a replicate",
                  rtol=1e-6, atol=tol)
        ctx.ev("gradient_norms")
