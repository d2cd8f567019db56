from common import np, pl, mlc, OD, probing, quiet
import gen
import ref
import obsv
from core import Skip

ID = "C26"
CASES = {"quick": 700, "thorough": 10000}
MOVES = ["units", "order", "pieces", "rebase_intercepts", "rebase_shapes",
         "nests", "expand", "level", "mix_columns", "interact"]
REQUIRED = ["move_" + m for m in MOVES] + \
    ["values", "gradients", "hessians", "predictions", "statistics",
     "standard_errors"]
RULE = ("A case is one random model and the same model written down another "
        "way (units of a variable, order of the specification or of its "
        "pieces, reference alternative of intercepts or shapes, order of the "
        "nests, one coefficient as several equal ones, the level of a "
        "variable in a choice situation, one variable measured relative to "
        "another, a specification entry as explicit columns), one to three "
        "such changes at once. Objective, gradient, Hessian or information, "
        "reported statistics, standard errors and predictions of the two are "
        "compared after the corresponding linear change of parameters. No "
        "reference formula is involved. Distinct: configuration, changes, "
        "weights.")
ASSUMPTIONS = ["moderate utilities (|V| <= 12, cloglog 6)", "no ridge"]


def config(w):
    """The world's model as labelled columns."""
    c = dict(entries=[], rows=[], sig={}, maps=[], iref=w["iref"],
             sref=w["sref"], nests=None, mix=[], n=0)
    k = 0
    KX = w["X"].shape[1]
    for v, how in w["spec"].items():
        m = 1 if how == "all_same" else \
            (w["J"] if isinstance(how, str) else len(how))
        labs = []
        for _ in range(m):
            c["n"] += 1
            lab = "col%d" % c["n"]
            labs.append(lab)
            c["rows"].append((lab, np.eye(KX)[k]))
            k += 1
        c["entries"].append([v, how, labs])
    c["rows"] = dict(c["rows"])
    labs = [x for e in c["entries"] for x in e[2]]
    if w["model"] == "Mixed Logit":
        c["mix"] = [labs[p] for p in w["mix_pos"]]
        c["sig"] = {x: 1.0 for x in c["mix"]}
    if w["nest_spec"]:
        c["nests"] = list(w["nest_spec"].items())
    return c


def col(df, v):
    if v == "intercept" and v not in df.columns:
        return np.ones(len(df))
    return df[v].values.astype(float)


def pieces(w, e):
    """Sets of alternatives of an entry's columns."""
    how = e[1]
    if how == "all_same":
        return [list(w["alts"])]
    if how == "all_diff":
        return [[a] for a in w["alts"]]
    return [list(x) if isinstance(x, list) else [x] for x in how]


def m_units(rng, w, c):
    e = [e for e in c["entries"] if e[0] != "intercept"]
    e = e[int(rng.randint(len(e)))]
    f = float(gen.pick(rng, [60, 1000, .01, 1 / 60., -1, 12, -2.5, 1e4,
                             1e-4]))
    v = e[0]
    c["maps"].append(lambda df: df.assign(**{v: col(df, v) * f}))
    for x in e[2]:
        c["rows"][x] = c["rows"][x] / f
        if x in c["sig"]:
            c["sig"][x] /= f


def m_order(rng, w, c):
    if len(c["entries"]) < 2:
        raise Skip("one variable")
    p = rng.permutation(len(c["entries"]))
    c["entries"] = [c["entries"][int(k)] for k in p]


def m_pieces(rng, w, c):
    e = [e for e in c["entries"] if not isinstance(e[1], str) and
         (len(e[1]) > 1 or isinstance(e[1][0], list))]
    if not e:
        raise Skip("no list")
    e = e[int(rng.randint(len(e)))]
    p = [int(k) for k in rng.permutation(len(e[1]))]
    e[1] = [e[1][k] for k in p]
    e[2] = [e[2][k] for k in p]
    e[1] = [[int(a) for a in rng.permutation(x)] if isinstance(x, list)
            else ([x] if rng.rand() < .3 else x) for x in e[1]]


def m_rebase_intercepts(rng, w, c):
    if c["iref"] is None:
        raise Skip("no outside intercepts")
    c["iref"] = int((c["iref"] + rng.randint(1, w["J"])) % w["J"])


def m_rebase_shapes(rng, w, c):
    if c["sref"] is None:
        raise Skip("no reference shape")
    c["sref"] = int((c["sref"] + rng.randint(1, w["J"])) % w["J"])


def m_nests(rng, w, c):
    if not c["nests"]:
        raise Skip("no nests")
    c["nests"] = [c["nests"][int(k)] for k in
                  rng.permutation(len(c["nests"]))]
    c["nests"] = [(k, [int(a) for a in rng.permutation(v)])
                  for k, v in c["nests"]]


def m_expand(rng, w, c):
    """One coefficient becomes several that are equal."""
    e = [e for e in c["entries"] if not set(e[2]) & set(c["mix"]) and
         max(len(x) for x in pieces(w, e)) > 1]
    if not e:
        raise Skip("nothing to expand")
    e = e[int(rng.randint(len(e)))]
    how, labs, out = [], [], []
    for s, lab in zip(pieces(w, e), e[2]):
        for a in s:
            c["n"] += 1
            x = "col%d" % c["n"]
            c["rows"][x] = c["rows"][lab]
            how.append(int(a))
            labs.append(x)
    if e[1] == "all_same" and rng.rand() < .5:
        how = "all_diff"
    e[1], e[2] = how, labs


def m_level(rng, w, c):
    if w["model"] not in ("MNL", "Nested Logit", "Mixed Logit"):
        raise Skip("levels matter")
    e = [e for e in c["entries"] if e[1] == "all_same" and
         e[0] != "intercept"]
    if not e:
        raise Skip("no common coefficient")
    v = e[int(rng.randint(len(e)))][0]
    s, o = int(rng.randint(1 << 30)), w["ocol"]
    sc = float(gen.pick(rng, [.3, 1, 2]))

    def f(df):
        order, idx = ref.order_first(df[o].tolist())
        x = col(df, v)
        k = np.random.RandomState(s).normal(0, sc * x.std(), len(order))
        return df.assign(**{v: x + k[idx]})
    c["maps"].append(f)


def m_mix_columns(rng, w, c):
    e = [e for e in c["entries"] if e[1] == "all_same" and
         not set(e[2]) & set(c["mix"]) and e[0] != "intercept"]
    if len(e) < 2:
        raise Skip("needs two")
    a, b = [e[int(k)] for k in rng.permutation(len(e))[:2]]
    k = float(gen.pick(rng, [1, -1, .5, 2]))
    x, z = a[0], b[0]
    c["maps"].append(lambda df: df.assign(**{x: col(df, x) +
                                             k * col(df, z)}))
    c["rows"][b[2][0]] = c["rows"][b[2][0]] - k * c["rows"][a[2][0]]


def m_interact(rng, w, c):
    j = int(rng.randint(len(c["entries"])))
    e = c["entries"][j]
    v, acol = e[0], w["acol"]
    new = []
    for s, lab in zip(pieces(w, e), e[2]):
        name = "%s for %s" % (v, lab)

        def f(df, s=s, name=name):
            on = df[acol].isin(s).values
            return df.assign(**{name: np.where(on, col(df, v), 0.0)})
        c["maps"].append(f)
        new.append([name, "all_same", [lab]])
    c["entries"][j:j + 1] = new


def rebase(J, r1, r2):
    """Maps J - 1 free values relative to r1 to those relative to r2."""
    full = np.zeros((J, J - 1))
    full[[k for k in range(J) if k != r1]] = np.eye(J - 1)
    return np.delete(full - full[r2][None, :], r2, axis=0)


def second(w, c):
    """The other model's world and the linear map of the parameters."""
    w2 = {k: v for k, v in w.items() if k not in ("names", "X")}
    spec = OD((e[0], e[1]) for e in c["entries"])
    names = OD((e[0], e[2][0] if e[1] == "all_same" else list(e[2]))
               for e in c["entries"])
    kw = {k: v for k, v in w["kw"].items() if k not in
          ("names", "mixing_vars")}
    kw["specification"], kw["names"] = spec, names
    labs = [x for e in c["entries"] for x in e[2]]
    n = w["npar"]
    J = w["J"]
    blocks = []
    if n["nests"]:
        kw["nest_spec"] = OD(c["nests"])
        old = list(w["nest_spec"])
        blocks.append(np.eye(n["nests"])[[old.index(k)
                                          for k, _ in c["nests"]]])
    if n["shapes"]:
        if w["sref"] is not None:
            kw["shape_ref_pos"] = c["sref"]
            blocks.append(rebase(J, w["sref"], c["sref"]))
        else:
            blocks.append(np.eye(n["shapes"]))
    if n["intercepts"]:
        kw["intercept_ref_pos"] = c["iref"]
        blocks.append(rebase(J, w["iref"], c["iref"]))
    blocks.append(np.array([c["rows"][x] for x in labs]))
    if w["model"] == "Mixed Logit":
        kw["mixing_vars"] = list(c["mix"])
        blocks.append(np.diag([c["sig"][x] for x in c["mix"]]))
    A = np.zeros((sum(b.shape[0] for b in blocks),
                  sum(b.shape[1] for b in blocks)))
    r = k = 0
    for b in blocks:
        A[r:r + b.shape[0], k:k + b.shape[1]] = b
        r, k = r + b.shape[0], k + b.shape[1]
    w2["names"] = names
    w2["mix_pos"] = [labs.index(x) for x in c["mix"]]
    w2.update(spec=spec, kw=kw, iref=c["iref"], sref=c["sref"], K=len(A),
              npar=dict(n, betas=len(labs) + len(c["mix"])))
    return w2, A


def remap(df, c):
    df = df.copy()
    for f in c["maps"]:
        df = f(df)
    return df


def probe(m, w, x, kw):
    with probing([("f", x), ("h", x)], final=x) as tr, quiet():
        gen.fit(m, w, x, just_point=True, **kw)
    t = tr[-1]
    if t.h:
        return t.f[0][1], t.f[0][2], t.h[0][1]
    return t.f[0][1], t.f[0][2], None


def case(ctx, rng, tier, i):
    first = MOVES[i % len(MOVES)]
    models = {"rebase_intercepts": ref.LOGIT[1:], "rebase_shapes": ["Asym"],
              "nests": ["Nested Logit"],
              "level": ["MNL", "Nested Logit", "Mixed Logit"]}.get(
                  first, gen.MODELS)
    model = models[(i // len(MOVES)) % len(models)]
    for _ in range(20):
        w = gen.world(rng, model, est=True, identified=rng.rand() < .6,
                      named=True, nmax=int(rng.randint(2, 4)))
        w["R"] = gen.ndraws(rng, 2, 7)
        w["dseed"] = int(rng.randint(1, 10 ** 6))
        c = config(w)
        try:
            globals()["m_" + first](rng, w, c)
            break
        except Skip:
            continue
    else:
        raise Skip("no applicable model")
    done = [first]
    for mv in [gen.pick(rng, MOVES) for _ in range(int(rng.randint(0, 4)))]:
        try:
            globals()["m_" + mv](rng, w, c)
            done.append(mv)
        except Skip:
            continue
    wk, wt = gen.row_weights(rng, w)
    kw = {} if wt is None else {"weights": wt}
    nd = gen.new_data(rng, w)
    cap = obsv.VCAP.get(model, 12.0)
    th = gen.tame([w, gen.on_data(w, nd)], gen.theta(
        rng, w, vmax=gen.pick(rng, [.3, 1, 3])), vcap=cap)[0]
    draws = gen.draws_for(mlc, w) if model == "Mixed Logit" else None
    if not obsv.moderate(w, th, cap + .5, draws):
        raise Skip("extreme point")
    w2, A = second(w, c)
    x, x2 = th, A.dot(th)
    nd2 = remap(nd, c)
    for df in (remap(w["df"], c), nd2):
        v2 = gen.on_data(w2, df)["X"].dot(
            x2[w2["K"] - w2["npar"]["betas"]:w2["K"] - len(c["mix"])])
        if np.abs(v2).max() > (cap if model in ref.LOGIT else 18):
            raise Skip("extreme point after the change of level")
    ctx.sig(w["sig"], done, wk)
    ctx.sample(config=w["sig"], changes=done, weights=wk, theta=th,
               specification=repr(w2["spec"])[:300])
    det = dict(model=model, changes=done, theta=x,
               spec=repr(dict(w["spec"]))[:200],
               spec2=repr(dict(w2["spec"]))[:300])
    m = gen.build(pl, w)
    m2 = pl.create_choice_model(data=remap(w["df"], c), **w2["kw"])
    t = 30 * obsv.tol(w)
    v, g, H = probe(m, w, x, kw)
    v2, g2, H2 = probe(m2, w2, x2, kw)
    wsum = 1.0 + (w["n_obs"] if wt is None else
                  float(np.sum(np.abs(wt) * w["choice"])))
    ctx.close(v, v2, "objective does not depend on how the model is written",
              rtol=1e-7, atol=1e-7 * wsum, **det)
    ctx.ev("values")
    mag = np.ones(w["K"])
    KX = w["X"].shape[1]
    lead = w["K"] - w["npar"]["betas"]
    lam = 1.0
    if model == "Nested Logit":
        lam = float((1 + np.exp(-x[:w["npar"]["nests"]])).max())
    if model in ("Scobit", "Uneven", "Asym", "Cloglog"):
        lam = 1 + float(np.exp(np.abs(x[:w["npar"]["shapes"]]).max()
                               if w["npar"]["shapes"] else 1))
    mx = np.abs(w["X"]).max(axis=0)
    mag[lead:lead + KX] = mx
    if model == "Mixed Logit":
        mag[lead + KX:] = mx[w["mix_pos"]] * np.abs(draws).max()
    mag = (mag + 1e-3) * lam
    # what was added to or measured relative to another variable cancels only
    # up to rounding of the larger numbers
    big = np.maximum(1.0, (np.abs(A).T.dot(1.0 / np.maximum(
        1e-9, np.abs(A).max(axis=1)))).max())
    ctx.close(A.T.dot(g2), g, "gradient corresponds", rtol=t,
              atol=t * mag * wsum * big, **det)
    ctx.ev("gradients")
    if H is not None and H2 is not None:
        ctx.close(A.T.dot(H2).dot(A), H, "Hessian corresponds", rtol=t,
                  atol=t * np.outer(mag, mag) * wsum * big, **det)
        ctx.ev("hessians")
    # ---- reported statistics
    st = stats(m, w, x, kw), stats(m2, w2, x2, kw)
    if st[0] is not None and st[1] is not None:
        a, b = st
        for k in ("llf", "null"):
            ctx.close(b[k], a[k], k, rtol=1e-7, atol=1e-7 * wsum, **det)
        for k in ("fitted", "resid"):
            ctx.close(b[k], a[k], k, rtol=1e-6, atol=1e-7, **det)
        ctx.ev("statistics")
        if A.shape[0] == A.shape[1] and len(kw) == 0:
            # (nested and mixed logit document their robust covariance as a
            # placeholder)
            for k in ("cov", "robust") if model in ref.LOGIT else ("cov",):
                want = A.dot(a[k]).dot(A.T)
                d = np.sqrt(np.maximum(np.abs(np.diag(a[k])),
                                       np.abs(np.diag(a["cov"]))))
                if not np.all(np.isfinite(d)) or not np.all(d > 0):
                    continue
                # identified, relative to the size of the variables
                h = mag * np.sqrt(wsum)
                cond = np.linalg.cond(a["hess"] / np.outer(h, h))
                ev = np.linalg.eigvalsh(-a["hess"] / np.outer(h, h))
                if not ev.min() > 1e-7:
                    continue
                if not cond < 1e5:
                    continue
                e = np.abs(A).dot(d)
                ctx.close(b[k], want, "covariance of the estimates (%s)" % k,
                          rtol=0, atol=t * cond * big * np.outer(e, e),
                          **det)
                ctx.ev("standard_errors")
    # ---- predictions
    if model == "Mixed Logit":
        if st[0] is None or st[1] is None:
            raise Skip("statistics not available")
        a = dict(num_draws=int(rng.randint(2, 9)), seed=int(rng.randint(1, 99)))
        p, p2 = m.predict(nd, **a), m2.predict(nd2, **a)
    else:
        p = m.predict(nd, param_list=gen.param_list(w, x))
        p2 = m2.predict(nd2, param_list=gen.param_list(w2, x2))
    ctx.close(p2, p, "predictions do not depend on how the model is written",
              rtol=1e-6 if model in ("Scobit", "Cloglog") else 1e-8,
              atol=1e-8 if model in ("Scobit", "Cloglog") else 1e-10, **det)
    ctx.ev("predictions", len(p))
    for mv in set(done):
        ctx.ev("move_" + mv)


def stats(m, w, x, kw):
    with probing([], final=x), quiet():
        try:
            gen.fit(m, w, x, **kw)
        except np.linalg.LinAlgError:
            return None
    return dict(llf=m.log_likelihood, null=m.null_log_likelihood,
                fitted=np.asarray(m.long_fitted_probs),
                resid=np.asarray(m.long_residuals),
                hess=np.asarray(m.hessian, dtype=float),
                cov=np.asarray(m.cov, dtype=float),
                robust=np.asarray(m.robust_cov, dtype=float))
