import os
import copy
import shutil
import tempfile
from collections import OrderedDict as OD
from common import np, pd, pl, probing
import gen

ID = "C03"
CASES = {"quick": 480, "thorough": 6000}
REQUIRED = ["pairs_permute", "pairs_subset", "pairs_extend", "pairs_perturb",
            "pairs_obs_rename", "pairs_alt_rename", "pairs_columns",
            "pairs_index", "pairs_csv", "pairs_mixed"]
RULE = ("A case predicts with one model on a dataset and on rearrangements "
        "of it (row permutation, removal/addition/perturbation of other "
        "choice situations, renamed ids, column and index changes, CSV "
        "round trip); the predictions of matching rows are compared. "
        "Distinct: configuration; every case compares several pairs.")
ASSUMPTIONS = ["rearranged data still contain every alternative (documented "
               "requirement of models with alternative-specific parameters)",
               "mixed logit: only rearrangements that keep the order of "
               "first appearance of individuals, as draws are assigned in "
               "that order"]


def case(ctx, rng, tier, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    mixed = model == "Mixed Logit"
    w = gen.world(rng, model, est=True, named=True, identified=mixed)
    w["R"] = 4
    for v in w["df"].columns:
        # single precision values do not survive a CSV round trip exactly
        if w["df"][v].dtype == np.float32:
            w["df"][v] = w["df"][v].astype(float)
    ctx.sig(w["sig"])
    m = gen.build(pl, w)
    th = gen.theta(rng, w, vmax=gen.pick(rng, [1., 4., 60.]))
    if rng.rand() < .25:
        th = th * gen.pick(rng, [30., 300., 1e4])
    ctx.sample(config=w["sig"], theta=th)
    kw = {}
    if mixed:
        kw = dict(num_draws=5, seed=int(rng.randint(1, 10 ** 5)))
        with probing([], final=th):
            gen.fit(m, w, th, ridge=1.0)
    plist = gen.param_list(w, th)

    def pred(df, model_=None):
        p = np.asarray((model_ or m).predict(
            df, param_list=copy.deepcopy(plist), **kw), dtype=float)
        return p

    df = gen.new_data(rng, w) if rng.rand() < .7 else w["df"].copy()
    df["_row"] = np.arange(len(df))
    R = len(df)
    base = pred(df.copy())
    ctx.check(base.shape == (R,), "one prediction per row", shape=base.shape)

    def compare(df2, what, mod=None, rows=None):
        p2 = pred(df2.copy() if isinstance(df2, pd.DataFrame) else df2, mod)
        rows = df2["_row"].values if rows is None else rows
        keep = rows >= 0
        ctx.check(p2.shape == (len(rows),), what + ": one prediction per row",
                  shape=p2.shape)
        ctx.close(p2[keep], base[rows[keep]], what, rtol=1e-9, atol=1e-13,
                  theta=th)
        ctx.ev("pairs_mixed" if mixed else "pairs")

    oc, ac = w["ocol"], w["acol"]
    o = df[oc].values
    uo = pd.unique(df[oc])
    if not mixed:
        d2 = df.iloc[rng.permutation(R)]
        compare(d2, "row permutation")
        d3 = df.iloc[np.argsort(df[ac].values, kind="stable")]
        compare(d3, "rows grouped by alternative")
        ctx.ev("pairs_permute", 2)
        # removal of choice situations
        keep, have = [], set()
        for x in rng.permutation(uo):
            s = set(df.loc[o == x, ac].tolist())
            if not s <= have or rng.rand() < .4:
                keep.append(x)
                have |= s
        compare(df.loc[np.isin(o, keep)], "other choice situations removed")
        ctx.ev("pairs_subset")
        # addition of choice situations
        extra = df.loc[np.isin(o, rng.permutation(uo)[:3])].copy()
        extra[oc] = extra[oc] + int(np.abs(uo).max()) * 2 + 5
        for v in w["vn"][:2]:
            extra[v] = extra[v].values + rng.normal(0, 1, len(extra))
        extra["_row"] = -1
        both = [extra, df] if rng.rand() < .5 else [df, extra]
        d4 = pd.concat(both)
        if rng.rand() < .5:
            d4 = d4.iloc[rng.permutation(len(d4))]
        compare(d4, "other choice situations added")
        ctx.ev("pairs_extend")
        # perturbation of other choice situations
        vic = rng.permutation(uo)[:max(1, len(uo) // 2)]
        d5 = df.copy()
        mask = np.isin(d5[oc].values, vic)
        for v in w["vn"][:2]:
            x = d5[v].values.astype(float)
            x[mask] += rng.normal(0, 3, mask.sum())
            d5[v] = x
        d5["_row"] = np.where(mask, -1, d5["_row"].values)
        compare(d5, "other choice situations changed")
        ctx.ev("pairs_perturb")
    # observation ids renamed
    kind = gen.pick(rng, ["int", "str", "float"])
    lab = rng.permutation(len(uo)) * 7 - 20
    new = {"int": list(lab), "str": ["o%d" % x for x in lab],
           "float": [x + .5 for x in lab]}[kind]
    d6 = df.copy()
    d6[oc] = [dict(zip(uo, new))[x] for x in df[oc].tolist()]
    compare(d6, "observation ids renamed (%s)" % kind)
    ctx.ev("pairs_obs_rename")
    # alternative ids renamed, order preserved
    nk, na = gen.alt_ids(rng, w["J"])
    ren = dict(zip(w["alts"], na))
    spec2 = OD()
    for v, how in w["spec"].items():
        if isinstance(how, str):
            spec2[v] = how
        else:
            spec2[v] = [[ren[a] for a in g] if isinstance(g, list) else ren[g]
                        for g in how]
    kw2 = dict(w["kw"])
    kw2["specification"] = spec2
    if w["nest_spec"]:
        kw2["nest_spec"] = OD([(k, [ren[a] for a in v])
                               for k, v in w["nest_spec"].items()])
    wd = w["df"].copy()
    wd[ac] = [ren[a] for a in wd[ac].tolist()]
    if mixed and w["names"] is None:
        # default names contain ids: translate the mixing variables
        import ref
        dfx = wd if "intercept" in wd.columns else wd.assign(intercept=1.0)
        _, cn = ref.design(dfx, ac, spec2, None)
        kw2["mixing_vars"] = [cn[p] for p in w["mix_pos"]]
    m2 = pl.create_choice_model(data=wd, **kw2)
    if mixed:
        with probing([], final=th):
            gen.fit(m2, w, th, ridge=1.0)
    d7 = df.copy()
    d7[ac] = [ren[a] for a in d7[ac].tolist()]
    compare(d7, "alternative ids renamed", mod=m2)
    ctx.ev("pairs_alt_rename")
    # columns
    d8 = df[list(rng.permutation(np.array(df.columns, dtype=object)))].copy()
    d8["zz extra"] = "text"
    d8.insert(0, "another", np.nan)
    compare(d8, "columns reordered and added")
    ctx.ev("pairs_columns")
    d9, ik = gen.reindex(rng, df)
    d9.index.name = gen.pick(rng, [None, oc, "idx"])
    compare(d9, "index changed")
    ctx.ev("pairs_index")
    if mixed:
        # individuals renamed
        d10 = df.copy()
        up = pd.unique(df[w["pcol"]])
        lab = dict(zip(up, rng.permutation(len(up)) - 3))
        d10[w["pcol"]] = [lab[x] for x in df[w["pcol"]].tolist()]
        compare(d10, "individual ids renamed")
    if i % 2 == 0:
        tmp = tempfile.mkdtemp(prefix="verif_c03_")
        try:
            f = os.path.join(tmp, "data.csv")
            df.to_csv(f, index=False)
            compare(f, "CSV file", rows=df["_row"].values)
            # a model created from a CSV file predicts the same
            g = os.path.join(tmp, "est.csv")
            w["df"].to_csv(g, index=False)
            m3 = pl.create_choice_model(data=g, **w["kw"])
            if mixed:
                with probing([], final=th):
                    gen.fit(m3, w, th, ridge=1.0)
            compare(df, "model created from a CSV file", mod=m3)
            ctx.ev("pairs_csv", 2)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
