import copy
from common import np, pd, pl, ct, probing, OD
import gen
import ref

ID = "C10"
CASES = {"quick": 1200, "thorough": 20000}
REQUIRED = ["design_columns", "names", "intercept_columns", "model_designs",
            "fitted_labels", "prediction_designs"]
RULE = ("A case builds one random specification (all kinds, orders, groups, "
        "names) over random data and compares the design matrix and the "
        "coefficient names of create_design_matrix and of a model with a "
        "row-by-row reading of the specification; predictions with unit "
        "coefficient vectors check the design used on new data. Distinct: "
        "configuration.")
ASSUMPTIONS = []


def wild_spec(rng, d):
    """Specifications beyond the usual: overlapping groups, repeated use of
    alternatives, numpy integer ids, single element groups."""
    spec = OD()
    alts = d["alts"]
    for v in rng.permutation(np.array(d["vn"], dtype=object)):
        if rng.rand() < .3:
            continue
        k = rng.randint(4)
        if k == 0:
            spec[v] = "all_same"
        elif k == 1:
            spec[v] = "all_diff"
        else:
            groups = []
            for _ in range(int(rng.randint(1, 5))):
                if rng.rand() < .5:
                    groups.append(int(gen.pick(rng, alts)))
                else:
                    n = int(rng.randint(1, len(alts) + 1))
                    groups.append([int(x) for x in rng.choice(
                        alts, n, replace=False)])
            if rng.rand() < .2:
                groups = [np.int64(g) if not isinstance(g, list) else g
                          for g in groups]
            spec[v] = groups
    if not spec:
        spec[d["vn"][0]] = "all_same"
    if rng.rand() < .4:
        spec["intercept"] = [int(a) for a in rng.permutation(alts)[:-1]]
        keys = list(spec)
        spec = OD((k, spec[k]) for k in rng.permutation(
            np.array(keys, dtype=object)))
    return spec


def case(ctx, rng, tier, i):
    d = gen.data(rng, est=False, contiguous=False)
    df = d["df"].copy()
    spec = wild_spec(rng, d)
    for v in d["vn"]:
        t = gen.pick(rng, ["keep", "int", "f4", "u1"], [.6, .2, .1, .1])
        if t == "int":
            df[v] = np.round(df[v].values * 3).astype(int)
        elif t == "f4":
            df[v] = df[v].values.astype(np.float32)
        elif t == "u1":
            df[v] = np.abs(np.round(df[v].values)).clip(0, 200).astype(
                np.uint8)
    names = gen.names_for(rng, spec, d["alts"]) if rng.rand() < .5 else None
    ctx.sig([(k, repr(v)) for k, v in spec.items()], d["alts"],
            names is not None, d["kinds"])
    ctx.sample(spec=dict(spec), names=names and dict(names),
               alts=d["alts"])
    dfx = df.copy()
    had = False
    if "intercept" in spec:
        dfx["intercept"] = 1.0
        had = True
    X, cn = ref.design(dfx, d["acol"], spec, names)
    got = ct.create_design_matrix(dfx.copy(), copy.deepcopy(spec), d["acol"],
                                  names=copy.deepcopy(names))
    ctx.check(isinstance(got, tuple) and len(got) == 2,
              "create_design_matrix returns (design, names)")
    ctx.close(got[0], X, "design matrix", rtol=0, atol=0)
    ctx.check(list(got[1]) == list(cn), "coefficient names", got=list(got[1]),
              expected=list(cn))
    ctx.ev("design_columns", X.shape[1])
    ctx.ev("names", len(cn))
    # through the models
    model = gen.pick(rng, ["MNL", "Cloglog", "Scobit", "Uneven"])
    kw = dict(alt_id_col=d["acol"], obs_id_col=d["ocol"],
              choice_col=d["ccol"], specification=copy.deepcopy(spec),
              model_type=model)
    if names is not None:
        kw["names"] = copy.deepcopy(names)
    src = df.copy()
    if had and rng.rand() < .5:
        src["intercept"] = 1.0
    m = pl.create_choice_model(data=src, **kw)
    ctx.close(m.design, X, "design of a model", rtol=0, atol=0)
    ctx.check(list(m.ind_var_names) == list(cn), "names of a model",
              got=list(m.ind_var_names), expected=list(cn))
    ctx.ev("model_designs")
    if had:
        cols = [k for k, nme in enumerate(cn)]
        j = 0
        for v, how in spec.items():
            n = 1 if how == "all_same" else (
                d["J"] if isinstance(how, str) else len(how))
            if v == "intercept":
                for k, a in enumerate(how):
                    ctx.close(np.asarray(m.design)[:, j + k],
                              (df[d["acol"]].values == a).astype(float),
                              "intercept column", rtol=0, atol=0)
                    ctx.ev("intercept_columns")
            j += n
        del cols
    # the design used for prediction: conditional logit log odds are linear
    if i % 3 == 0:
        m1 = m if model == "MNL" else pl.create_choice_model(
            data=df.copy(), **dict(kw, model_type="MNL"))
        nd = dfx.iloc[rng.permutation(len(dfx))].drop(
            columns=["intercept"] if had and rng.rand() < .5 else [])
        Xn, _ = ref.design(nd if "intercept" in nd.columns or not had else
                           nd.assign(intercept=1.0), d["acol"], spec, names)
        _, oi = ref.order_first(nd[d["ocol"]].tolist())
        B = rng.normal(0, 1, (Xn.shape[1], 3))
        B *= 3.0 / (1e-9 + np.abs(Xn.dot(B)).max(axis=0))
        p = np.asarray(m1.predict(nd.copy(), param_list=[B, None, None,
                                                         None]))
        for k in range(3):
            v = Xn.dot(B[:, k])
            s = np.zeros(oi.max() + 1)
            np.add.at(s, oi, np.exp(v))
            ctx.close(p[:, k], np.exp(v) / s[oi],
                      "prediction uses the specified columns", rtol=1e-9,
                      atol=1e-13)
        ctx.ev("prediction_designs")
    # names reach the reported estimates in order
    if i % 4 == 0:
        w = gen.world(rng, gen.pick(rng, gen.MODELS), est=True,
                      identified=True)
        mm = gen.build(pl, w)
        th = gen.theta(rng, w, vmax=1.0)
        with probing([], final=th):
            gen.fit(mm, w, th, ridge=.5)
        ctx.check(list(mm.params.index) == w["pnames"],
                  "labels of the estimates", got=list(mm.params.index),
                  expected=w["pnames"])
        ctx.check(list(mm.coefs.index) == w["cnames"],
                  "labels of the index coefficients",
                  got=list(mm.coefs.index), expected=w["cnames"])
        ctx.ev("fitted_labels")
