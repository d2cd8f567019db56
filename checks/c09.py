import io
import contextlib
import scipy.stats
from common import np, pl, mlc, probing, record
import gen
import ref
import obsv
import c05
from core import Skip

ID = "C09"
CASES = {"quick": 700, "thorough": 9000}
REQUIRED = ["reported_gradients", "fitted_probabilities", "fit_measures", "covariances",
            "inference_series", "confidence_intervals", "summary_tables",
            "statsmodels_tables", "real_fits", "constrained_fits"]
RULE = ("A case is one fitted model (a stand-in optimizer ends at a random "
        "point, or a real optimizer runs) with random weights, ridge and "
        "fixed set; every attribute reported afterwards is recomputed from "
        "the data, the reported parameters, Hessian and information matrix "
        "and compared value by value and label by label. Distinct: "
        "configuration, weights, ridge, fixed set, how it was fitted.")
ASSUMPTIONS = ["robust covariance decided where the library documents one "
               "(all models; nested and mixed logit: function of the "
               "reported matrices)"]


def near(x, y, tol):
    return abs(x - y) <= tol or (np.isnan(x) and np.isnan(y))


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    w = gen.world(rng, model, est=True, identified=True,
                  n=gen.size(rng, 14, 36), nmax=2)
    w["R"], w["dseed"] = gen.ndraws(rng, 2, 9), int(rng.randint(1, 10 ** 6))
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    wk, wt = gen.row_weights(rng, w)
    ridge = gen.pick(rng, [None, None, .5])
    cons = c05.pick_fixed(rng, w)
    fixed = c05.all_fixed(w, cons)
    kw = {} if wt is None else {"weights": wt.copy()}
    if ridge is not None:
        kw["ridge"] = ridge
    if cons is not None:
        kw["constrained_pos"] = list(cons)
    real = rng.rand() < .3
    pt = gen.tame([w], gen.theta(rng, w, vmax=gen.pick(rng, [.3, 1, 3])),
                  vcap=4)[0]
    ctx.sig(w["sig"], wk, ridge, cons, real)
    ctx.sample(config=w["sig"], weights=wk, ridge=ridge, fixed=cons,
               point=pt, real=real)
    m = gen.build(pl, w)
    method = gen.pick(rng, ["BFGS", "L-BFGS-B", "Newton-CG"])
    try:
        if real:
            with record() as trs:
                try:
                    gen.fit(m, w, pt, maxiter=80, method=method, **kw)
                except ValueError as e:
                    obsv.optimizer_failure(ctx, w, trs, e, draws)
            ctx.ev("real_fits")
        else:
            with probing([], final=pt):
                gen.fit(m, w, pt, method=method, **kw)
    except np.linalg.LinAlgError:
        raise Skip("singular Hessian")
    x = m.params.values.astype(float)
    if not obsv.moderate(w, x, draws=draws):
        raise Skip("diverged estimates")
    ctx.check(m.optimization_method == method and m.ridge_param == ridge,
              "optimizer and ridge recorded with the estimates",
              got=(m.optimization_method, m.ridge_param),
              expected=(method, ridge))
    names = w["pnames"]
    K = w["K"]
    # ---- labels
    ctx.check(list(m.params.index) == names, "parameter labels",
              got=list(m.params.index), expected=names)
    if not real:
        ctx.check(np.array_equal(x, pt), "parameters are the solution")
    k = 0
    for key, attr in (("nests", "nests"), ("shapes", "shapes"),
                      ("intercepts", "intercepts"), ("betas", "coefs")):
        part = getattr(m, attr)
        c = w["npar"][key]
        if not c:
            ctx.check(part is None, attr + " absent", got=part)
            continue
        ctx.check(list(part.index) == names[k:k + c] and
                  np.array_equal(part.values.astype(float), x[k:k + c]),
                  attr + ": names and values", got=part,
                  expected=list(zip(names[k:k + c], x[k:k + c])))
        k += c
    # ---- fitted values
    if model == "Mixed Logit":
        P = np.exp(ref.mixed_log_probs(w, x, draws).real)
    else:
        P = np.exp(ref.log_probs(w, x).real)
    ch = w["choice"] if P.ndim == 1 else w["choice"][:, None]
    ctx.close(m.long_fitted_probs, P, "fitted probabilities", rtol=1e-5,
              atol=1e-8)
    Pr = np.asarray(m.long_fitted_probs, dtype=float)
    chosen = np.zeros((w["n_obs"],) + P.shape[1:])
    np.add.at(chosen, w["obs_idx"], Pr * ch)
    ctx.close(m.fitted_probs, chosen, "probabilities of chosen alternatives",
              rtol=1e-10, atol=1e-12)
    ctx.close(m.long_residuals, ch - Pr, "residuals", rtol=1e-10, atol=1e-12)
    chi = np.zeros_like(chosen)
    np.add.at(chi, w["obs_idx"], (ch - Pr) ** 2 / Pr)
    ctx.close(m.ind_chi_squareds, chi, "per-observation chi-squares",
              rtol=1e-8, atol=1e-10)
    ctx.close(m.chi_square, chi.sum(), "chi-square total", rtol=1e-8)
    ctx.ev("fitted_probabilities", P.size)
    # ---- fit measures
    ll = ref.loglik(w, x, wt, ridge, draws)
    l0 = ref.loglik(w, np.zeros(K), wt, ridge, draws)
    n = w["n_obs"]
    t = dict(rtol=1e-6, atol=1e-6)
    for attr, want in (("log_likelihood", ll), ("llf", ll),
                       ("null_log_likelihood", l0),
                       ("rho_squared", 1 - ll / l0),
                       ("rho_bar_squared", 1 - (ll - K) / l0),
                       ("aic", -2 * ll + 2 * K),
                       ("bic", -2 * ll + np.log(n) * K),
                       ("nobs", n), ("df_model", K), ("df_resid", n - K)):
        if l0 == 0 and attr.startswith("rho"):
            continue
        ctx.close(getattr(m, attr), want, attr, **t)
    fs = m.fit_summary
    lab = ["Number of Parameters", "Number of Observations",
           "Null Log-Likelihood", "Fitted Log-Likelihood", "Rho-Squared",
           "Rho-Bar-Squared", "Estimation Message"]
    ctx.check(list(fs.index) == lab, "fit summary labels", got=list(fs.index))
    want = [K, n, l0, ll, 1 - ll / l0 if l0 else np.nan,
            1 - (ll - K) / l0 if l0 else np.nan]
    if l0:
        ctx.close(np.array([float(v) for v in fs.values[:6]]), want,
                  "fit summary values", **t)
    ctx.check(fs.values[6] == m.estimation_message, "fit summary message")
    if not real:
        ctx.check(m.estimation_message == "monitor probe" and
                  m.estimation_success is True or m.estimation_success == 1,
                  "message and success are the optimizer's")
    ctx.ev("fit_measures", 10)
    # ---- gradient at the reported parameters
    ctx.check(list(m.gradient.index) == names, "gradient labels",
              got=list(m.gradient.index))
    if not (ridge and model == "Nested Logit"):     # see C05's finding
        obsv.check_gradient(ctx, w, x, -m.gradient.values.astype(float), wt,
                            ridge, draws, what="reported gradient")
        ctx.ev("reported_gradients")
    # ---- covariance matrices
    for attr in ("hessian", "cov", "fisher_information", "robust_cov"):
        a = getattr(m, attr)
        ctx.check(list(a.index) == names and list(a.columns) == names,
                  attr + " labels", got=list(a.index))
    H = m.hessian.values.astype(float)
    F = m.fisher_information.values.astype(float)
    s = np.linalg.svd(H, compute_uv=False)
    if s[-1] < 1e-7 * s[0]:
        raise Skip("nearly singular Hessian")
    want = -np.linalg.inv(H)
    cond = s[0] / s[-1]
    rt = 1e-12 * cond + 1e-9
    sc = np.abs(want).max()
    ctx.close(m.cov.values, want, "covariance is minus the inverse Hessian",
              rtol=rt, atol=rt * sc)
    rob = np.linalg.inv(H).dot(F).dot(np.linalg.inv(H))
    scr = np.abs(rob).max()
    ctx.close(m.robust_cov.values, rob, "robust covariance is the sandwich",
              rtol=rt * 10, atol=rt * 10 * scr + 1e-300)
    ctx.ev("covariances", 2)
    # ---- inference
    free = np.array([k for k in range(K) if k not in fixed], dtype=int)

    def series(attr, want, name):
        v = getattr(m, attr)
        ctx.check(list(v.index) == names, attr + " labels",
                  got=list(v.index))
        ctx.check(v.name == name, attr + " series name", got=v.name)
        val = v.values.astype(float)
        ctx.check(np.all(np.isnan(val[fixed])), attr + ": missing for fixed "
                  "parameters", got=val, fixed=fixed)
        ctx.close(val[free], want[free], attr, rtol=1e-6, atol=1e-12)
        ctx.ev("inference_series")
        return val
    cv = np.diag(m.cov.values.astype(float))
    rv = np.diag(m.robust_cov.values.astype(float))
    with np.errstate(all="ignore"):
        se, rse = np.sqrt(cv), np.sqrt(rv)
        out = [x]
        out.append(series("standard_errors", se, "std_err"))
        out.append(series("tvalues", x / se, "t_stats"))
        out.append(series("pvalues", 2 * scipy.stats.norm.sf(
            np.abs(x / se)), "p_values"))
        out.append(series("robust_std_errs", rse, "robust_std_err"))
        out.append(series("robust_t_stats", x / rse, "robust_t_stats"))
        out.append(series("robust_p_vals", 2 * scipy.stats.norm.sf(
            np.abs(x / rse)), "robust_p_values"))
    if fixed:
        ctx.ev("constrained_fits")
    ctx.close(m.bse.values, m.standard_errors.values, "bse", rtol=0, atol=0)
    summ = m.summary
    ctx.check(list(summ.index) == names and list(summ.columns) == [
        "parameters", "std_err", "t_stats", "p_values", "robust_std_err",
        "robust_t_stats", "robust_p_values"], "summary labels",
        got=(list(summ.index), list(summ.columns)))
    ctx.close(summ.values.astype(float), np.array(out).T, "summary values",
              rtol=1e-12, atol=0)
    ctx.ev("summary_tables")
    # ---- confidence intervals
    al = gen.pick(rng, [.05, .01, .1, .32, 1e-3, 1e-6, .995,
                        round(float(rng.uniform(.02, .9)), 3)])
    z = scipy.stats.norm.ppf(1 - al / 2)
    sf = m.standard_errors.values.astype(float)
    ci = np.array([x - z * sf, x + z * sf]).T
    ctx.close(m.conf_int(alpha=al), ci, "confidence intervals", rtol=1e-9,
              atol=1e-12)
    sub = [names[int(k)] for k in rng.permutation(K)[:max(1, K // 2)]]
    d = m.conf_int(alpha=al, coefs=sub, return_df=True)
    ctx.check(list(d.index) == sub and list(d.columns) == ["lower", "upper"],
              "confidence interval labels", got=list(d.index))
    ctx.close(d.values, ci[[names.index(a) for a in sub]],
              "confidence intervals of chosen parameters", rtol=1e-9,
              atol=1e-12)
    if rng.rand() < .3:
        ctx.close(m.conf_int(), np.array(
            [x - 1.959963984540054 * sf, x + 1.959963984540054 * sf]).T,
            "default confidence intervals", rtol=1e-9, atol=1e-12)
    ctx.ev("confidence_intervals", K)
    # ---- printed tables
    if i % 3 == 0:
        title = "Trip purpose %d" % rng.randint(1000)
        txt = str(m.get_statsmodels_summary(title=title, alpha=al))
        ctx.check(txt.splitlines()[0].strip() == title,
                  "statsmodels table has the requested title",
                  got=txt.splitlines()[0])
        lines = txt.splitlines()
        rows = [ln.split() for ln in lines]
        for k, nm in enumerate(names):
            hit = [r for ln, r in zip(lines, rows)
                   if ln.startswith(nm + " ") and len(r) >= 7 and
                   " ".join(r[:-6]) == nm]
            if len(nm) > 22:
                continue
            ctx.check(len(hit) == 1, "statsmodels table has one row per "
                      "parameter", name=nm, hits=hit)
            got = [float(v) for v in hit[0][-6:]]
            wantr = [x[k], out[1][k], out[2][k], out[3][k], ci[k][0],
                     ci[k][1]]
            for g, wv in zip(got, wantr):
                ctx.check(near(g, wv, 6e-4 + 2e-3 * abs(wv)),
                          "statsmodels table values", name=nm, got=got,
                          expected=wantr)
        flat = txt.replace("\n", " ")
        for lab, val, fmt in (("No. Observations:", n, "{:,}"),
                              ("Df Model:", K, "{:,}"),
                              ("Df Residuals:", n - K, "{:,}"),
                              ("AIC:", m.aic, "{:,.3f}"),
                              ("BIC:", m.bic, "{:,.3f}"),
                              ("Pseudo R-squ.:", m.rho_squared, "{:.3f}"),
                              ("Pseudo R-bar-squ.:", m.rho_bar_squared,
                               "{:.3f}"),
                              ("LL-Null:", m.null_log_likelihood, "{:,.3f}"),
                              ("Log-Likelihood:", m.log_likelihood,
                               "{:,.3f}")):
            tok = flat.split(lab, 1)[1].split()[0]
            ctx.check(tok == fmt.format(val), "statsmodels header value",
                      label=lab, got=tok, expected=fmt.format(val))
        ctx.ev("statsmodels_tables")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            m.print_summaries()
        ctx.check(str(m.fit_summary) in buf.getvalue() and
                  str(m.summary) in buf.getvalue(), "printed summaries")
