import os
import shutil
import tempfile
import contextlib
from common import np, pd, pl, mlc, OD, probing, quiet
import gen
import ref
import obsv
import c23
from core import Skip

ID = "C27"
CASES = {"quick": 900, "thorough": 9000}
MOVES = ["situations", "rows", "renumber", "alternatives", "individuals",
         "columns", "rename", "index", "dtypes", "csv"]
REQUIRED = ["move_" + m for m in MOVES] + \
    ["values", "gradients", "hessians", "predictions", "statistics",
     "standard_errors", "estimates", "weighted", "mixed_reordered"]
RULE = ("A case is one random model on one dataset and on the same choice "
        "situations laid out differently (situations in another order, rows "
        "of a situation in another order, other ids for observations, "
        "alternatives (order kept) and individuals, other column order, "
        "column names, extra columns, index, number types, a CSV file), one "
        "to five such changes at once. Objective, gradient, Hessian, every "
        "reported statistic, estimates and predictions of the two are "
        "compared row by row and parameter by parameter. Distinct: "
        "configuration, changes, weights, ridge.")
ASSUMPTIONS = ["observation ids in the rearranged data are again "
               "nondecreasing (documented requirement)",
               "mixed logit with reordered individuals: the draws of an "
               "individual move along with it (supplied at "
               "mixed_logit_calcs.get_normal_draws; not compared when the "
               "code draws elsewhere)",
               "moderate utilities (|V| <= 12, cloglog 6)"]


class Layout(object):
    def __init__(self, w):
        self.w = w
        self.df = w["df"].copy()
        self.df.index = np.arange(len(self.df))
        for v in self.df.columns:
            # single precision does not survive a change of type or CSV
            if self.df[v].dtype == np.float32:
                self.df[v] = self.df[v].astype(float)
        self.base = self.df.copy()
        self.row = np.arange(len(self.df))
        self.alt = {a: a for a in w["alts"]}
        self.col = {}
        self.person = {}
        self.csv = False
        self.obs = None

    def take(self, pos):
        self.df = self.df.iloc[pos]
        self.row = self.row[pos]

    def number(self, rng, blocks):
        """New nondecreasing ids for consecutive blocks."""
        k = gen.pick(rng, ["int", "neg", "gaps", "half", "float",
                          "quarters"])
        step = np.ones(blocks.max() + 1, dtype=int) if k in ("int", "float") \
            else rng.randint(1, 9, blocks.max() + 1)
        ids = np.cumsum(step)
        if k == "neg":
            ids = ids - int(ids[-1]) - int(rng.randint(0, 3))
        ids = ids + (.5 if k == "half" else 0)
        if k == "quarters":
            ids = ids * .25 - int(rng.randint(0, 6))
        if k == "float":
            ids = ids.astype(float)
        self.df[self.name("ocol")] = ids[blocks]

    def name(self, key):
        c = self.w[key]
        return self.col.get(c, c)

    def blocks(self):
        return ref.order_first(self.df[self.name("ocol")].tolist())[1]


def m_situations(rng, w, y):
    b = y.blocks()
    how = gen.pick(rng, ["perm", "reverse", "rotate", "swap"])
    n = b.max() + 1
    p = np.arange(n)
    if how == "perm":
        p = rng.permutation(n)
    elif how == "reverse":
        p = p[::-1]
    elif how == "rotate":
        p = np.roll(p, int(rng.randint(1, max(2, n))))
    else:
        i, j = rng.permutation(n)[:2] if n > 1 else (0, 0)
        p[[i, j]] = p[[j, i]]
    pos = [np.flatnonzero(b == k) for k in p]
    y.take(np.concatenate(pos))
    y.number(rng, np.repeat(np.arange(n), [len(x) for x in pos]))


def m_rows(rng, w, y):
    b = y.blocks()
    y.take(np.lexsort((rng.rand(len(b)), b)))


def m_renumber(rng, w, y):
    y.number(rng, y.blocks())


def m_alternatives(rng, w, y):
    _, ids = gen.alt_ids(rng, w["J"])
    ren = dict(zip(sorted(set(y.alt.values())), ids))
    y.alt = {a: ren[b] for a, b in y.alt.items()}
    c = y.name("acol")
    y.df[c] = [ren[a] for a in y.df[c].tolist()]


def m_individuals(rng, w, y):
    if not w.get("pcol"):
        raise Skip("no individuals")
    if y.person:
        raise Skip("done before")
    c = y.name("pcol")
    u = list(pd.unique(y.df[c]))
    k = gen.pick(rng, ["int", "text", "float"])
    lab = rng.permutation(len(u)) * 3 - 4
    new = {"int": [int(x) for x in lab], "text": ["id %d" % x for x in lab],
           "float": [x + .25 for x in lab]}[k]
    y.person = dict(zip(u, new))
    y.df[c] = [y.person[x] for x in y.df[c].tolist()]


def m_columns(rng, w, y):
    extra = {}
    for k in range(int(rng.randint(0, 4))):
        extra["extra %d" % rng.randint(10 ** 6)] = gen.pick(
            rng, [np.nan, "text", 3, rng.rand(len(y.df))])
    y.df = y.df.assign(**extra)
    y.df = y.df[list(rng.permutation(np.array(y.df.columns, dtype=object)))]


def m_rename(rng, w, y):
    if y.col:
        raise Skip("done before")
    which = [v for v in list(w["vn"]) + [w["acol"], w["ocol"], w["ccol"]] +
             ([w["pcol"]] if w.get("pcol") else [])
             if rng.rand() < .5]
    if not which:
        raise Skip("nothing to rename")
    lab = rng.permutation(len(which))
    pre = gen.pick(rng, ["c", "zz ", "A_", "10 "])
    y.col = {v: pre + str(k) for v, k in zip(which, lab)}
    y.df = y.df.rename(columns=y.col)


def m_index(rng, w, y):
    y.df, _ = gen.reindex(rng, y.df)


def m_dtypes(rng, w, y):
    did = False
    for v in list(y.df.columns):
        t = y.df[v].dtype
        if t.kind in "iu" and rng.rand() < .6:
            if v in (y.name("acol"),):
                y.df[v] = y.df[v].astype(gen.pick(rng, [np.int32, np.int64]))
            else:
                y.df[v] = y.df[v].astype(float)
            did = True
        elif t.kind in "fb" and v == y.name("ccol"):
            y.df[v] = y.df[v].astype(gen.pick(rng, [int, np.int8, float]))
            did = True
        elif t.kind == "f" and v != y.name("ocol") and \
                not y.df[v].isnull().any() and \
                np.all(y.df[v].values == np.round(y.df[v].values)) and \
                v != y.name("pcol" if w.get("pcol") else "ocol"):
            y.df[v] = y.df[v].astype(np.int64)
            did = True
    if not did:
        raise Skip("no other type")


def m_csv(rng, w, y):
    y.csv = True


def other(w, y):
    """The world of the rearranged data."""
    w2 = dict(w)
    c = lambda v: y.col.get(v, v)
    kw = dict(w["kw"])
    for k, a in (("acol", "alt_id_col"), ("ocol", "obs_id_col"),
                 ("ccol", "choice_col"), ("pcol", "mixing_id_col")):
        if w.get(k):
            w2[k] = c(w[k])
            if a in kw:
                kw[a] = w2[k]
    kw["specification"] = OD(
        (c(v), how if isinstance(how, str) else
         [[y.alt[a] for a in g] if isinstance(g, list) else y.alt[g]
          for g in how]) for v, how in w["spec"].items())
    if w["names"] is not None:
        kw["names"] = OD((c(v), x) for v, x in w["names"].items())
    if w["nest_spec"]:
        kw["nest_spec"] = OD((k, [y.alt[a] for a in v])
                             for k, v in w["nest_spec"].items())
        w2["nest_spec"] = kw["nest_spec"]
    w2["alts"] = sorted(y.alt.values())
    w2.update(kw=kw, spec=kw["specification"], names=kw.get("names"),
              vn=[c(v) for v in w["vn"]])
    df = y.df.copy()
    dfx = df if "intercept" in df.columns or "intercept" not in w["spec"] \
        else df.assign(intercept=1.0)
    if w["model"] == "Mixed Logit" and w["names"] is None:
        _, cn = ref.design(dfx, w2["acol"], w2["spec"], None)
        kw["mixing_vars"] = [cn[p] for p in w["mix_pos"]]
    w2["df"] = df
    gen.attach(w2, dfx)
    return w2


def convert(nd, w, y):
    """Prediction data in the terms of the other layout."""
    nd = nd.copy()
    nd[w["acol"]] = [y.alt[a] for a in nd[w["acol"]].tolist()]
    if y.person:
        nd[w["pcol"]] = [y.person.get(x, "new %s" % (x,)
                                      if isinstance(list(y.person.values())[0],
                                                    str) else 10 ** 5 + k)
                         for k, x in zip(ref.order_first(
                             nd[w["pcol"]].tolist())[1],
                             nd[w["pcol"]].tolist())]
    return nd.rename(columns=y.col)


def run(w, df, x, kw, draws):
    m = pl.create_choice_model(data=df, **w["kw"])
    calls = [1]
    with contextlib.ExitStack() as st:
        if draws is not None:
            calls = st.enter_context(c23.given_draws(draws))
        full = True
        with quiet():
            try:
                with probing([("f", x), ("h", x)], final=x) as tr:
                    gen.fit(m, w, x, **kw)
            except np.linalg.LinAlgError:
                full = False
                m = pl.create_choice_model(
                    data=df.copy() if isinstance(df, pd.DataFrame) else df,
                    **w["kw"])
                with probing([("f", x), ("h", x)], final=x) as tr:
                    gen.fit(m, w, x, just_point=True, **kw)
    if not calls:
        raise Skip("draws are made elsewhere")
    t = tr[-1]
    return m, t.f[0][1], t.f[0][2], t.h[0][1] if t.h else None, full


def case(ctx, rng, tier, i):
    first = MOVES[i % len(MOVES)]
    models = ["Mixed Logit"] if first == "individuals" else gen.MODELS
    model = models[(i // len(MOVES)) % len(models)]
    mixed = model == "Mixed Logit"
    w = gen.world(rng, model, est=True, identified=rng.rand() < .7,
                  named=True, nmax=int(rng.randint(2, 4)))
    w["R"] = gen.ndraws(rng, 2, 7)
    w["dseed"] = int(rng.randint(1, 10 ** 6))
    y = Layout(w)
    w["df"] = y.base
    done = []
    for mv in [first] + [gen.pick(rng, MOVES)
                         for _ in range(int(rng.randint(0, 5)))]:
        try:
            globals()["m_" + mv](rng, w, y)
            done.append(mv)
        except Skip:
            if not done:
                raise
    w2 = other(w, y)
    wk, wt = gen.row_weights(rng, w)
    ridge = None
    if rng.rand() < .3:
        ridge = float(gen.pick(rng, [.01, .5, 3]))
    kw, kw2 = {}, {}
    if wt is not None:
        kw["weights"], kw2["weights"] = wt, wt[y.row]
        ctx.ev("weighted")
    if ridge is not None:
        kw["ridge"] = kw2["ridge"] = ridge
    cap = obsv.VCAP.get(model, 12.0)
    nd = gen.new_data(rng, w)
    th = gen.tame([w, gen.on_data(w, nd)], gen.theta(
        rng, w, vmax=gen.pick(rng, [.3, 1, 3])), vcap=cap)[0]
    d1 = d2 = None
    if mixed:
        # the draws of an individual move along with the individual
        d1 = gen.draws_for(mlc, w)
        inv = {}
        for k, r in zip(w2["mix_idx"], y.row):
            inv[int(k)] = int(w["mix_idx"][r])
        order = [inv[k] for k in range(w2["n_mix"])]
        d2 = [d[order] for d in d1]
        if order != sorted(order):
            ctx.ev("mixed_reordered")
    if not obsv.moderate(w, th, cap + .5, d1):
        raise Skip("extreme point")
    ctx.sig(w["sig"], done, wk, ridge)
    ctx.sample(config=w["sig"], changes=done, weights=wk, ridge=ridge,
               theta=th)
    det = dict(model=model, changes=done, theta=th, weights=wk, ridge=ridge,
               spec=repr(dict(w["spec"]))[:200])
    with contextlib.ExitStack() as st:
        data2 = y.df.copy()
        if y.csv:
            tmp = tempfile.mkdtemp(prefix="verif_c27_")
            st.callback(shutil.rmtree, tmp, ignore_errors=True)
            data2 = os.path.join(tmp, "data.csv")
            y.df.to_csv(data2, index=False)
        m, v, g, H, full = run(w, w["df"].copy(), th, kw, d1)
        m2, v2, g2, H2, full2 = run(w2, data2, th, kw2, d2)
    wsum = obsv.floor(wt, ridge) + (w["n_obs"] if wt is None else
                                    float(np.sum(wt * w["choice"])))
    t = 3 * obsv.tol(w)
    ctx.close(v2, v, "objective does not depend on the layout", rtol=1e-8,
              atol=1e-8 * wsum, **det)
    ctx.ev("values")
    lead = w["K"] - w["npar"]["betas"]
    KX = w["X"].shape[1]
    mag = np.ones(w["K"])
    mag[lead:lead + KX] = np.abs(w["X"]).max(axis=0)
    lam = 1.0
    if w["npar"]["nests"]:
        lam = float((1 + np.exp(-th[:w["npar"]["nests"]])).max())
    if w["npar"]["shapes"]:
        lam = 1 + float(np.exp(np.abs(th[:w["npar"]["shapes"]]).max()))
    if model == "Cloglog":
        lam = 4.0
    if mixed:
        mag[lead + KX:] = mag[lead:lead + KX][w["mix_pos"]] * \
            max(np.abs(d).max() for d in d1)
    mag = (mag + 1e-3) * lam
    ctx.close(g2, g, "gradient does not depend on the layout", rtol=t,
              atol=t * mag * wsum, **det)
    ctx.ev("gradients")
    if H is not None and H2 is not None:
        ctx.close(H2, H, "Hessian does not depend on the layout", rtol=t,
                  atol=t * np.outer(mag, mag) * wsum, **det)
        ctx.ev("hessians")
    if full and full2:
        reported(ctx, w, w2, y, m, m2, th, kw, mag, wsum, t, det)
    # ---- predictions
    nd2 = convert(nd, w, y)
    if mixed:
        if not (full and full2):
            raise Skip("statistics not available")
        a = dict(num_draws=int(rng.randint(2, 9)),
                 seed=int(rng.randint(1, 99)))
        p, p2 = m.predict(nd, **a), m2.predict(nd2, **a)
    else:
        p = m.predict(nd, param_list=gen.param_list(w, th))
        p2 = m2.predict(nd2, param_list=gen.param_list(w, th))
    ctx.close(p2, p, "predictions do not depend on the layout",
              rtol=1e-8, atol=1e-10, **det)
    ctx.ev("predictions", len(p))
    if model == "MNL" and w["K"] <= 8:
        estimates(ctx, w, w2, y, kw, kw2, det)
    for mv in set(done):
        ctx.ev("move_" + mv)


def reported(ctx, w, w2, y, m, m2, th, kw, mag, wsum, t, det):
    model = w["model"]
    for k in ("log_likelihood", "null_log_likelihood", "llf", "aic", "bic",
              "rho_squared", "rho_bar_squared", "nobs", "df_model",
              "df_resid"):
        a = float(getattr(m, k))
        ctx.close(float(getattr(m2, k)), a,
                  k + " does not depend on the layout", rtol=1e-7,
                  atol=1e-7 * (wsum if "rho" not in k else
                               1 + wsum / abs(m.null_log_likelihood)), **det)
    for k in ("long_fitted_probs", "long_residuals"):
        a, b = (np.asarray(getattr(z, k), dtype=float) for z in (m, m2))
        ctx.close(b, a[y.row], k + " follow their rows", rtol=1e-7,
                  atol=1e-8, **det)
    # per chosen row: fitted probabilities; per observation: chi-squares
    first = np.array([y.row[np.flatnonzero(w2["obs_idx"] == k)[0]]
                      for k in range(w2["n_obs"])])
    origin = w["obs_idx"][first]
    for k in ("fitted_probs", "ind_chi_squareds"):
        a, b = (np.asarray(getattr(z, k), dtype=float) for z in (m, m2))
        ctx.close(b, a[origin], k + " follow their observations", rtol=1e-6,
                  atol=1e-7, **det)
    ctx.close(float(m2.chi_square), float(m.chi_square), "chi-square",
              rtol=1e-6, atol=1e-6, **det)
    ctx.close(np.asarray(m2.params.values), np.asarray(m.params.values),
              "parameters", rtol=0, atol=0, **det)
    a, b = (np.asarray(z.hessian, dtype=float) for z in (m, m2))
    ctx.close(b, a, "reported Hessian", rtol=t,
              atol=t * np.outer(mag, mag) * wsum, **det)
    if model in ref.LOGIT:
        # (a placeholder in the other models)
        fa, fb = (np.asarray(z.fisher_information, dtype=float)
                  for z in (m, m2))
        ctx.close(fb, fa, "reported Fisher information", rtol=t,
                  atol=t * np.outer(mag, mag) * wsum, **det)
    ctx.ev("statistics")
    h = mag * np.sqrt(wsum)
    s = a / np.outer(h, h)
    ev = np.linalg.eigvalsh(-(s + s.T) / 2)
    if not ev.min() > 1e-6 * ev.max():
        return
    cond = float(ev.max() / ev.min())
    for k in ("cov", "robust_cov") if model in ref.LOGIT else ("cov",):
        a, b = (np.asarray(getattr(z, k), dtype=float) for z in (m, m2))
        d = np.sqrt(np.maximum(np.abs(np.diag(a)), np.abs(np.diag(
            np.asarray(m.cov, dtype=float)))))
        if not np.all(np.isfinite(a)) or not np.all(d > 0):
            continue
        ctx.close(b, a, k + " does not depend on the layout", rtol=0,
                  atol=10 * t * cond * np.outer(d, d), **det)
        ctx.ev("standard_errors")


def estimates(ctx, w, w2, y, kw, kw2, det):
    """With a unique maximum both layouts give the same estimates."""
    kw, kw2 = dict(kw), dict(kw2)
    if not kw.get("ridge"):
        kw["ridge"] = kw2["ridge"] = .5
    out = []
    for ww, k in ((w, kw), (w2, kw2)):
        m = pl.create_choice_model(data=ww["df"].copy(), **ww["kw"])
        with quiet():
            r = gen.fit(m, ww, np.zeros(w["K"]), just_point=True,
                        gradient_tol=1e-8, loss_tol=1e-12, maxiter=2000,
                        **k)
        out.append(r)
    a, b = out
    # the penalised objective is strongly convex: |x - x*| <= |g| / (2 ridge)
    e = [np.linalg.norm(np.asarray(r["jac"])) / (2 * kw["ridge"])
         for r in out]
    if max(e) > 1e-2 * (1 + np.abs(a["x"]).max()):
        return
    ctx.close(b["x"], a["x"], "estimates do not depend on the layout",
              rtol=1e-7, atol=2 * sum(e) + 1e-7, **det)
    ctx.ev("estimates")
