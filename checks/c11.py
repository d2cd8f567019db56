import copy
from common import np, pd, pl, ct
import gen
import ref

ID = "C11"
CASES = {"quick": 1500, "thorough": 25000}
REQUIRED = ["mapping_obs", "mapping_alts", "mapping_chosen", "mapping_nests",
            "mapping_mixers", "dense_forms", "model_mappings",
            "single_mappings"]
RULE = ("A case creates all mappings for random long data (ids negative, "
        "unsorted, interleaved, non-consecutive, text) and compares every "
        "entry with membership computed row by row. Distinct: data "
        "configuration.")
ASSUMPTIONS = []


def member(ids, units):
    return np.array([[1.0 if a == b else 0.0 for b in units] for a in ids])


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def case(ctx, rng, tier, i):
    d = gen.data(rng, est=False, contiguous=False, panel=True)
    df = d["df"].copy()
    if rng.rand() < .2:
        df[d["ocol"]] = ["k%s" % x for x in df[d["ocol"]]]
    elif rng.rand() < .2:
        df[d["ocol"]] = df[d["ocol"]] + .25
    if rng.rand() < .2:
        df[d["pcol"]] = ["p%s" % x for x in df[d["pcol"]]]
    ns = gen.nest_spec(rng, d["alts"])
    o, a = df[d["ocol"]].tolist(), df[d["acol"]].tolist()
    p, c = df[d["pcol"]].tolist(), df[d["ccol"]].values.astype(float)
    ctx.sig(d["kinds"], d["alts"], d["n"], len(df),
            [len(v) for v in ns.values()])
    ctx.sample(alts=d["alts"], kinds=d["kinds"], nests=dict(ns),
               obs=o[:12])
    want = {}
    want["rows_to_obs"] = member(o, ref.order_first(o)[0])
    want["rows_to_alts"] = member(a, sorted(set(a)))
    want["chosen_row_to_obs"] = want["rows_to_obs"] * c[:, None]
    a2n = {x: k for k, v in enumerate(ns.values()) for x in v}
    want["rows_to_nests"] = member([a2n[x] for x in a], range(len(ns)))
    want["rows_to_mixers"] = member(p, ref.order_first(p)[0])
    flags = [rng.rand() < .7 for _ in range(3)]
    kw = {}
    if flags[0]:
        kw["choice_col"] = d["ccol"]
    if flags[1]:
        kw["nest_spec"] = copy.deepcopy(ns)
    if flags[2]:
        kw["mix_id_col"] = d["pcol"]
    sp = ct.create_long_form_mappings(df.copy(), d["ocol"], d["acol"], **kw)
    de = ct.create_long_form_mappings(df.copy(), d["ocol"], d["acol"],
                                      dense=True, **kw)
    present = {"rows_to_obs": True, "rows_to_alts": True,
               "chosen_row_to_obs": flags[0], "rows_to_nests": flags[1],
               "rows_to_mixers": flags[2]}
    for k, on in present.items():
        if not on:
            ctx.check(sp[k] is None and de[k] is None,
                      k + " absent when not requested")
            continue
        ctx.close(dense(sp[k]), want[k], k, rtol=0, atol=0)
        ctx.check(isinstance(de[k], np.ndarray), k + " dense form is an array",
                  type=type(de[k]))
        ctx.close(de[k], want[k], k + " (dense)", rtol=0, atol=0)
        ctx.ev({"rows_to_obs": "mapping_obs", "rows_to_alts": "mapping_alts",
                "chosen_row_to_obs": "mapping_chosen",
                "rows_to_nests": "mapping_nests",
                "rows_to_mixers": "mapping_mixers"}[k])
        ctx.ev("dense_forms")
    # stand-alone helpers of the public module
    ids = df[d["ocol"]].values
    u = ct.get_original_order_unique_ids(ids)
    ctx.check(list(u) == ref.order_first(list(ids))[0],
              "ids in order of first appearance", got=list(u))
    ctx.close(ct.create_row_to_some_id_col_mapping(ids), want["rows_to_obs"],
              "row to id mapping", rtol=0, atol=0)
    sub = np.array(list(rng.permutation(np.array(sorted(set(a))))[
        :max(1, d["J"] - 1)]))
    ctx.close(dense(ct.create_sparse_mapping(df[d["acol"]].values,
                                             unique_ids=sub)),
              member(a, list(sub)), "sparse mapping onto given units",
              rtol=0, atol=0)
    ctx.ev("single_mappings", 3)
    # through a model
    model = gen.MODELS[i % 7]
    w = gen.world(rng, model, est=False, contiguous=False)
    m = gen.build(pl, w)
    mp = m.get_mappings_for_fit(dense=bool(rng.rand() < .3))
    wd = w["df"]
    oo, aa = wd[w["ocol"]].tolist(), wd[w["acol"]].tolist()
    R = member(oo, ref.order_first(oo)[0])
    ctx.close(dense(mp["rows_to_obs"]), R, "model rows_to_obs", rtol=0,
              atol=0)
    ctx.close(dense(mp["rows_to_alts"]), member(aa, sorted(set(aa))),
              "model rows_to_alts", rtol=0, atol=0)
    ctx.close(dense(mp["chosen_row_to_obs"]), R * w["choice"][:, None],
              "model chosen_row_to_obs", rtol=0, atol=0)
    if w["nest_spec"]:
        ctx.close(dense(mp["rows_to_nests"]),
                  member(w["nest_idx"].tolist(), range(len(w["nest_spec"]))),
                  "model rows_to_nests", rtol=0, atol=0)
    if w["pcol"]:
        ctx.close(dense(mp["rows_to_mixers"]),
                  member(wd[w["pcol"]].tolist(), w["mix_order"]),
                  "model rows_to_mixers", rtol=0, atol=0)
    ctx.ev("model_mappings")
