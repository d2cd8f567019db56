from common import np, pd, pl, ct
import gen

ID = "C12"
CASES = {"quick": 1600, "thorough": 20000}
REQUIRED = ["cells", "null_cells", "choices", "flags", "named_alternatives",
            "subset_columns", "obs_level_cells", "missing_values_kept"]
RULE = ("A case is one random long dataset (any row order, ids, choice sets, "
        "index, extra columns, strings and missing values among the "
        "covariates) and one conversion request; every cell of the returned "
        "wide dataframe is accounted for from the long data, and its set of "
        "rows and columns must be exactly the expected one. Distinct: data "
        "kinds, requested variables, alternative names, null value.")
ASSUMPTIONS = ["integer observation and alternative ids",
               "column names do not collide after suffixing"]


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a), float(b)
    return a == b or (np.isnan(a) and np.isnan(b))


def long_data(rng, J=None):
    d = gen.data(rng, J=J, est=False, contiguous=False,
                 n=gen.size(rng, 3, 18))
    df = d["df"].copy()
    o = df[d["ocol"]].values
    R = len(df)
    un, inv = np.unique(o, return_inverse=True)
    ind, alt = [d["vn"][2], d["vn"][3]], [d["vn"][0], d["vn"][1]]
    if rng.rand() < .4:
        df["city"] = np.array([gen.pick(rng, ["Rome", "Oslo", "Lima"])
                               for _ in un], dtype=object)[inv]
        ind.append("city")
    if rng.rand() < .3:
        v = rng.normal(size=len(un))
        v[rng.rand(len(un)) < .3] = np.nan
        df["hh"] = v[inv]
        ind.append("hh")
    if rng.rand() < .3:
        df["flag"] = rng.rand(R) < .5
        alt.append("flag")
    if rng.rand() < .4:
        v = rng.normal(size=R) * 10.0 ** rng.randint(-8, 9, R)
        if rng.rand() < .5:
            v[rng.rand(R) < .2] = np.nan
        if rng.rand() < .3:
            v[rng.rand(R) < .1] = np.inf
        df["wild"] = v
        alt.append("wild")
    if rng.rand() < .3:
        df["zero"] = 0
        alt.append("zero")
    keep = set(ind + alt + [d["ocol"], d["acol"], d["ccol"]])
    if rng.rand() < .6:
        df = df[[c for c in df.columns if c in keep]]
    if rng.rand() < .3:
        df.index.name = gen.pick(rng, [d["ocol"], d["acol"], "idx", "index"])
    if rng.rand() < .1:
        df.index = pd.MultiIndex.from_arrays([df[d["ocol"]].values,
                                              df[d["acol"]].values],
                                             names=["o", "a"])
    d["df"] = df
    return d, ind, alt


def request(rng, d, ind, alt):
    """Split variables into the three groups."""
    ind = [v for v in ind if rng.rand() < .8]
    avail = [v for v in alt if rng.rand() < .85]
    asv, sub = [], {}
    for v in avail:
        if rng.rand() < .6:
            asv.append(v)
        else:
            m = int(rng.randint(1, d["J"] + 1))
            sub[v] = [int(a) for a in rng.choice(d["alts"], m,
                                                 replace=False)]
    ind = [ind[int(k)] for k in rng.permutation(len(ind))]
    asv = [asv[int(k)] for k in rng.permutation(len(asv))]
    return ind, asv, sub


def alt_names(rng, d):
    k = rng.rand()
    if k < .5:
        return None
    keys = [(i, d["alts"][i]) for i in range(d["J"])]
    if rng.rand() < .6:
        keys = [keys[int(i)] for i in rng.permutation(d["J"])]
    if k < .8:
        return {a: "m%s" % chr(97 + (7 * i) % 26) + str(i)
                for i, a in keys}
    # names that sort in another order than the ids
    p = rng.permutation(d["J"])
    return {a: "%s" % ("alt %d" % p[i]) for i, a in keys}


def case(ctx, rng, tier, i):
    d, ind, alt = long_data(rng)
    df = d["df"]
    oc, ac, cc_ = d["ocol"], d["acol"], d["ccol"]
    ind, asv, sub = request(rng, d, ind, alt)
    nm = alt_names(rng, d)
    kw = {}
    if nm is not None:
        kw["alt_name_dict"] = dict(nm)
    nullk = gen.pick(rng, ["default", 0, -999, np.inf, np.nan])
    null = np.nan
    if nullk != "default":
        kw["null_value"] = nullk
        null = nullk
    ctx.sig(d["kinds"], len(ind), len(asv), sorted(map(len, sub.values())),
            nm is not None, nullk, d["J"])
    ctx.sample(kinds=d["kinds"], ind=ind, alt_specific=asv, subset=sub,
               names=nm, null=nullk)
    wide = pl.convert_long_to_wide(df.copy(), list(ind), list(asv),
                                   {k: list(v) for k, v in sub.items()},
                                   oc, ac, cc_, **kw)
    # --- expected content, straight from the long rows
    obs, _ = gen.ref.order_first(df[oc].tolist())
    cell, chosen, have, ov = {}, {}, {}, {}
    cols = {c: df[c].tolist() for c in set(ind + asv + list(sub) +
                                           [oc, ac, cc_])}
    for r in range(len(df)):
        o, a = cols[oc][r], cols[ac][r]
        have.setdefault(o, set()).add(a)
        if cols[cc_][r] == 1:
            chosen[o] = a
        for v in ind:
            ov[o, v] = cols[v][r]
        for v in asv + list(sub):
            cell[o, a, v] = cols[v][r]
    lab = {a: (nm[a] if nm else a) for a in d["alts"]}
    expcols = [oc, cc_] + ["availability_%s" % lab[a] for a in d["alts"]] + \
        list(ind) + ["%s_%s" % (v, lab[a]) for v in asv for a in d["alts"]] + \
        ["%s_%s" % (v, lab[a]) for v in sub for a in d["alts"]
         if a in sub[v]]
    ctx.check(sorted(map(str, wide.columns)) == sorted(expcols),
              "columns of the wide data", got=list(wide.columns),
              expected=expcols)
    ctx.check(len(wide) == len(obs), "one row per observation",
              got=len(wide), expected=len(obs))
    got_obs = wide[oc].tolist()
    ctx.check(sorted(got_obs) == sorted(obs), "observation ids of the wide "
              "data", got=got_obs, expected=obs)
    W = {c: wide[c].tolist() for c in wide.columns}
    for r, o in enumerate(got_obs):
        ctx.check(W[cc_][r] == chosen[o], "id of the chosen alternative",
                  obs=o, got=W[cc_][r], expected=chosen[o])
        ctx.ev("choices")
        for a in d["alts"]:
            f = W["availability_%s" % lab[a]][r]
            ctx.check(f == int(a in have[o]), "availability flag", obs=o,
                      alt=a, got=f, available=sorted(have[o]))
            ctx.ev("flags")
        for v in ind:
            ctx.check(same(W[v][r], ov[o, v]), "observation-level variable",
                      var=v, obs=o, got=W[v][r], expected=ov[o, v])
            ctx.ev("obs_level_cells")
        for v in asv + list(sub):
            for a in d["alts"]:
                if v in sub and a not in sub[v]:
                    continue
                g = W["%s_%s" % (v, lab[a])][r]
                e = cell[o, a, v] if a in have[o] else null
                ctx.check(same(g, e), "alternative-specific cell", var=v,
                          obs=o, alt=a, got=g, expected=e,
                          available=a in have[o])
                ctx.ev("cells" if a in have[o] else "null_cells")
                if a in have[o] and e != e:
                    ctx.ev("missing_values_kept")
    if nm:
        ctx.ev("named_alternatives", len(nm))
    ctx.ev("subset_columns", sum(map(len, sub.values())))
