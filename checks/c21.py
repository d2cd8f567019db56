"""Fault enumeration: every documented requirement is violated in turn, in
many random contexts; the library must refuse, and accept the same input
without the fault."""
import copy
import os
import shutil
import tempfile
from collections import OrderedDict as OD
from common import np, pd, pl, ct, boot, bsamp, bcalc, babc, quiet
import gen
import obsv
import c12
import c13
from core import Skip, Violation

ID = "C21"
LEVEL = "fault_enumeration"
CASES = {"quick": 2000, "thorough": 40000}
RULE = ("Faults are enumerated round robin: each case takes one documented "
        "requirement, one random otherwise valid model or dataset, checks "
        "that the valid input is accepted, injects the fault at a random "
        "place, and requires an exception before any estimate, prediction or "
        "converted dataset is returned. Distinct: fault, model, "
        "configuration.")
ASSUMPTIONS = ["a fault may be rejected at any step up to the one that would "
               "return estimates, predictions or converted data"]
FAULTS = []        # (name, kind, function)


def fault(kind, *models):
    def deco(f):
        FAULTS.append((f.__name__, kind, f, models))
        return f
    return deco


ALL = gen.MODELS
LOGITS = ("Asym", "Cloglog", "Scobit", "Uneven")


# ------------------------------------------------------------ model building
# f(rng, w, df, kw): modify df / kw in place or return (df, kw)

def spec_col(rng, w, df):
    c = [v for v in w["spec"] if v != "intercept"]
    return gen.pick(rng, c)


@fault("build", *ALL)
def spec_column_missing(rng, w, df, kw):
    return df.drop(columns=[spec_col(rng, w, df)]), kw


@fault("build", *ALL)
def spec_column_text(rng, w, df, kw):
    c = spec_col(rng, w, df)
    if rng.rand() < .5:
        df[c] = ["%s" % x for x in df[c]]
    else:
        v = df[c].astype(object)
        v.iloc[int(rng.randint(len(v)))] = "a"
        df[c] = v
    return df, kw


@fault("build", *ALL)
def spec_column_nan(rng, w, df, kw):
    c = spec_col(rng, w, df)
    v = df[c].values.astype(float).copy()
    v[int(rng.randint(len(v)))] = np.nan
    df[c] = v
    return df, kw


@fault("build", *ALL)
def spec_column_infinite(rng, w, df, kw):
    c = spec_col(rng, w, df)
    v = df[c].values.astype(float).copy()
    v[int(rng.randint(len(v)))] = gen.pick(rng, [np.inf, -np.inf])
    df[c] = v
    return df, kw


@fault("build", *ALL)
def id_column_missing(rng, w, df, kw):
    c = gen.pick(rng, [w["acol"], w["ocol"], w["ccol"]])
    return df.drop(columns=[c]), kw


@fault("build", *ALL)
def specification_plain_dict(rng, w, df, kw):
    kw["specification"] = dict(kw["specification"])
    return df, kw


@fault("build", *ALL)
def specification_unknown_alternative(rng, w, df, kw):
    s = copy.deepcopy(kw["specification"])
    c = gen.pick(rng, list(s))
    bad = max(w["alts"]) + 1 + int(rng.randint(3))
    if isinstance(s[c], str):
        s[c] = [w["alts"][0], bad]
    elif rng.rand() < .5 or len(s[c]) < 1:
        s[c] = list(s[c]) + [bad]
    else:
        s[c][-1] = [bad] + (s[c][-1] if isinstance(s[c][-1], list) else
                            [s[c][-1]])
    kw["specification"] = s
    kw.pop("names", None)
    if w["model"] == "Mixed Logit":
        v = [x for x in s if x != c]
        if not v or not isinstance(s[v[0]], str) or s[v[0]] == "all_diff":
            raise Skip("no spare mixing variable")
        kw["mixing_vars"] = [v[0]]
    return df, kw


@fault("build", *ALL)
def specification_unknown_keyword(rng, w, df, kw):
    s = copy.deepcopy(kw["specification"])
    c = gen.pick(rng, list(s))
    s[c] = gen.pick(rng, ["all_sam", "same", "all", "ALL_SAME"])
    kw["specification"] = s
    kw.pop("names", None)
    return df, kw


@fault("build", *ALL)
def specification_bad_type(rng, w, df, kw):
    s = copy.deepcopy(kw["specification"])
    c = gen.pick(rng, list(s))
    s[c] = gen.pick(rng, [3, None, 1.5, {"a": 1}])
    kw["specification"] = s
    kw.pop("names", None)
    return df, kw


def some_names(rng, w, kw):
    if w["names"] is None:
        raise Skip("no names in this world")
    return copy.deepcopy(w["names"])


@fault("build", *ALL)
def names_too_few_or_many(rng, w, df, kw):
    nm = some_names(rng, w, kw)
    lists = [k for k in nm if isinstance(nm[k], list)]
    if not lists:
        raise Skip("no list of names")
    k = gen.pick(rng, lists)
    if rng.rand() < .5 and len(nm[k]) > 1:
        nm[k] = nm[k][:-1]
    else:
        nm[k] = nm[k] + ["extra"]
    kw["names"] = nm
    return df, kw


@fault("build", *ALL)
def names_of_wrong_type(rng, w, df, kw):
    nm = some_names(rng, w, kw)
    k = gen.pick(rng, list(nm))
    nm[k] = gen.pick(rng, [4, None]) if isinstance(nm[k], str) else \
        gen.pick(rng, ["one name", 7])
    kw["names"] = nm
    return df, kw


@fault("build", *ALL)
def names_for_unknown_variable(rng, w, df, kw):
    nm = some_names(rng, w, kw)
    k = gen.pick(rng, list(nm))
    nm["no such variable"] = nm.pop(k)
    kw["names"] = nm
    return df, kw


@fault("build", *ALL)
def names_plain_dict(rng, w, df, kw):
    kw["names"] = dict(some_names(rng, w, kw))
    return df, kw


@fault("build", *ALL)
def specification_empty(rng, w, df, kw):
    kw["specification"] = OD()
    kw.pop("names", None)
    kw.pop("mixing_vars", None)
    return df, kw


@fault("build", *LOGITS)
def intercept_names_wrong_length(rng, w, df, kw):
    if w["iref"] is None:
        raise Skip("no outside intercepts")
    n = w["J"] - 1
    k = gen.pick(rng, [n - 1, n + 1, n + 2])
    kw["intercept_names"] = ["i%d" % j for j in range(max(k, 0))]
    return df, kw


@fault("build", "Asym", "Scobit", "Uneven")
def shape_names_wrong_length(rng, w, df, kw):
    n = w["npar"]["shapes"]
    k = gen.pick(rng, [n - 1, n + 1, n + 2])
    kw["shape_names"] = ["s%d" % j for j in range(max(k, 0))]
    return df, kw


@fault("build", *LOGITS)
def intercept_reference_invalid(rng, w, df, kw):
    kw["intercept_ref_pos"] = gen.pick(rng, [w["J"], w["J"] + 3, -1, 1.5,
                                             "a"])
    if rng.rand() < .6:
        kw["intercept_names"] = ["i%d" % j for j in range(w["J"] - 1)]
    else:
        kw.pop("intercept_names", None)
    if w["iref"] is None:
        raise Skip("no outside intercepts")
    return df, kw


@fault("build", "Asym")
def shape_reference_invalid(rng, w, df, kw):
    kw["shape_ref_pos"] = gen.pick(rng, [w["J"], w["J"] + 3, -1, 1.5, None,
                                         "a"])
    if rng.rand() < .6:
        kw["shape_names"] = ["s%d" % j for j in range(w["J"] - 1)]
    else:
        kw.pop("shape_names", None)
    return df, kw


@fault("build", "MNL")
def intercept_reference_in_conditional_logit(rng, w, df, kw):
    kw["intercept_ref_pos"] = 0
    return df, kw


@fault("build", *ALL)
def model_type_unknown(rng, w, df, kw):
    kw["model_type"] = gen.pick(rng, ["mnl", "Probit", "", None, "Nested"])
    return df, kw


@fault("build", "Nested Logit")
def nests_missing(rng, w, df, kw):
    kw.pop("nest_spec")
    return df, kw


@fault("build", "Nested Logit")
def nest_alternative_left_out(rng, w, df, kw):
    ns = copy.deepcopy(kw["nest_spec"])
    k = gen.pick(rng, list(ns))
    if len(ns[k]) < 2:
        ns.pop(k)
        if not ns:
            raise Skip("one nest of one alternative")
    else:
        ns[k].pop(int(rng.randint(len(ns[k]))))
    kw["nest_spec"] = ns
    return df, kw


@fault("build", "Nested Logit")
def nest_alternative_unknown(rng, w, df, kw):
    ns = copy.deepcopy(kw["nest_spec"])
    ns[gen.pick(rng, list(ns))].append(max(w["alts"]) + 5)
    kw["nest_spec"] = ns
    return df, kw


@fault("build", "Nested Logit")
def nest_alternative_twice(rng, w, df, kw):
    ns = copy.deepcopy(kw["nest_spec"])
    ks = list(ns)
    a = gen.pick(rng, ks)
    b = gen.pick(rng, ks)
    ns[b].append(ns[a][0])
    kw["nest_spec"] = ns
    return df, kw


@fault("build", "Nested Logit")
def nest_empty(rng, w, df, kw):
    ns = copy.deepcopy(kw["nest_spec"])
    ns["nothing"] = []
    kw["nest_spec"] = ns
    return df, kw


@fault("build", "Nested Logit")
def nest_types(rng, w, df, kw):
    ns = copy.deepcopy(kw["nest_spec"])
    k = gen.pick(rng, list(ns))
    how = int(rng.randint(4))
    if how == 0:
        ns[k] = tuple(ns[k])
    elif how == 1:
        ns[k] = ["%s" % x for x in ns[k]]
    elif how == 2:
        ns = dict(ns)
    else:
        ns[11] = ns.pop(k)
    kw["nest_spec"] = ns
    return df, kw


@fault("build", "Mixed Logit")
def mixing_variable_unknown(rng, w, df, kw):
    kw["mixing_vars"] = list(kw["mixing_vars"]) + ["nobody"]
    return df, kw


@fault("build", "Mixed Logit")
def mixing_variables_missing(rng, w, df, kw):
    kw.pop("mixing_vars")
    return df, kw


@fault("build", "Mixed Logit")
def mixing_id_missing(rng, w, df, kw):
    if rng.rand() < .5:
        kw.pop("mixing_id_col")
    else:
        df = df.drop(columns=[w["pcol"]])
    return df, kw


@fault("build", *ALL)
def data_of_wrong_type(rng, w, df, kw):
    return gen.pick(rng, [df.values, None, 5, {"a": 1}]), kw


@fault("build", *ALL)
def observations_not_contiguous(rng, w, df, kw):
    o = df[w["ocol"]].values
    how = gen.pick(rng, ["move", "swap", "end", "merge"])
    order = list(range(len(o)))
    multi = [k for k in range(len(o)) if np.sum(o == o[k]) > 1]
    if not multi or len(set(o.tolist())) < 2:
        raise Skip("no observation with several rows")
    k = int(gen.pick(rng, multi))
    if how == "swap":
        j = int(gen.pick(rng, [j for j in order if o[j] != o[k]]))
        order[k], order[j] = order[j], order[k]
    elif how == "end":
        order.append(order.pop(k))
    elif how == "move":
        order.remove(k)
        order.insert(int(rng.randint(len(o))), k)
    else:
        # two separated observations share an id
        u = list(pd.unique(df[w["ocol"]]))
        if len(u) < 3:
            raise Skip("two observations")
        v = o.copy()
        v[o == u[-1]] = u[0]
        df[w["ocol"]] = v
    df = df.iloc[order]
    o = df[w["ocol"]].values
    runs = 1 + int(np.sum(o[1:] != o[:-1]))
    if runs == len(set(o.tolist())):
        raise Skip("still contiguous")
    if rng.rand() < .2:                 # ids that are not whole numbers
        df = df.copy()
        df[w["ocol"]] = o.astype(float) / 64.0
    return df, kw


# ------------------------------------------------------------------- fitting
# f(rng, w, args): args = dict(init_vals=..., **kwargs)

@fault("fit", *ALL)
def starting_values_wrong_length(rng, w, a):
    v = a["init_vals"]
    a["init_vals"] = gen.pick(rng, [v[:-1], np.append(v, 0.1),
                                    np.append(v, v), v[:0]])
    return a


@fault("fit", *ALL)
def weights_negative(rng, w, a):
    wt = np.ones(len(w["X"]))
    wt[w["obs_idx"] == int(rng.randint(w["n_obs"]))] = -gen.pick(
        rng, [.5, 1e-3, 1e-9, 4.0])
    a["weights"] = wt
    return a


@fault("fit", *ALL)
def weights_wrong_length(rng, w, a):
    n = len(w["X"])
    a["weights"] = np.ones(gen.pick(rng, [n - 1, n + 1, w["n_obs"] if
                                          w["n_obs"] != n else 1, 2 * n]))
    return a


@fault("fit", *ALL)
def weights_of_wrong_type(rng, w, a):
    n = len(w["X"])
    a["weights"] = gen.pick(rng, [[1.0] * n, pd.Series(np.ones(n)),
                                  np.ones((n, 1)), 2.0, "w"])
    return a


@fault("fit", *ALL)
def constrained_position_out_of_range(rng, w, a):
    a["constrained_pos"] = [w["K"] + int(rng.randint(4))]
    return a


@fault("fit", *ALL)
def optimizer_unknown(rng, w, a):
    a["method"] = gen.pick(rng, ["nope", "newton", 5])
    return a


@fault("fit", *ALL)
def ridge_of_wrong_type(rng, w, a):
    a["ridge"] = gen.pick(rng, ["1", [0.5], np.ones(w["K"]), {"r": 1}])
    return a


@fault("fit", "MNL", "Mixed Logit", "Nested Logit")
def unsupported_starting_keywords(rng, w, a):
    a[gen.pick(rng, ["init_shapes", "init_intercepts", "init_coefs"])] = \
        np.zeros(1)
    return a


@fault("fit", *LOGITS)
def separate_starts_wrong_length(rng, w, a):
    th = a.pop("init_vals")
    a["init_vals"] = None
    n = w["npar"]
    k1, k2 = n["shapes"], n["shapes"] + n["intercepts"]
    parts = {"init_coefs": th[k2:]}
    if n["shapes"]:
        parts["init_shapes"] = th[:k1]
    if n["intercepts"]:
        parts["init_intercepts"] = th[k1:k2]
    k = gen.pick(rng, sorted(parts))
    parts[k] = np.append(parts[k], .1) if rng.rand() < .5 or \
        len(parts[k]) == 1 else parts[k][:-1]
    a.update(parts)
    return a


@fault("fit", "Mixed Logit")
def number_of_draws_invalid(rng, w, a):
    a["num_draws"] = gen.pick(rng, [0, -3, 2.5, "4", None])
    return a


@fault("fit", "Mixed Logit")
def seed_invalid(rng, w, a):
    a["seed"] = gen.pick(rng, [-1, 2.5, "4"])
    return a


# ---------------------------------------------------------------- prediction
# f(rng, w, df, args)

@fault("predict", *ALL)
def prediction_column_missing(rng, w, df, a):
    c = [w["acol"], w["ocol"], spec_col(rng, w, df)]
    if w["model"] == "Mixed Logit":
        c.append(w["pcol"])
    return df.drop(columns=[gen.pick(rng, c)]), a


@fault("predict", "Mixed Logit")
def panel_prediction_fault(rng, w, df, a):
    a.pop("param_list")
    a["panel"] = True
    k = int(rng.randint(3))
    if k == 0:
        a["return_long_probs"] = False
    elif k == 1:
        c = [w["acol"], w["ocol"], w["pcol"], spec_col(rng, w, df)]
        df = df.drop(columns=[gen.pick(rng, c)])
    else:
        a["num_draws"] = gen.pick(rng, [0, -2, 1.5])
    return df, a


@fault("predict", *ALL)
def prediction_data_of_wrong_type(rng, w, df, a):
    return gen.pick(rng, [df.values, None, 3]), a


@fault("predict", *ALL)
def nothing_to_return(rng, w, df, a):
    a["return_long_probs"] = False
    a.pop("choice_col", None)
    return df, a


@fault("predict", "MNL", "Nested Logit", "Mixed Logit", *LOGITS)
def parameter_array_wrong_length(rng, w, df, a):
    p = a["param_list"]
    k = gen.pick(rng, [j for j in range(4) if p[j] is not None])
    v = p[k]
    p[k] = np.append(v, .3) if rng.rand() < .5 or len(v) < 2 else v[:-1]
    return df, a


@fault("predict", "MNL", "Nested Logit", *LOGITS)
def parameter_array_unexpected(rng, w, df, a):
    """Values for parameters that the model does not have."""
    p = a["param_list"]
    k = gen.pick(rng, [j for j in range(1, 4) if p[j] is None])
    p[k] = np.full(gen.pick(rng, [1, len(w["alts"]) - 1, len(w["alts"])]), .3)
    return df, a


@fault("predict", "MNL", "Nested Logit", *LOGITS)
def parameter_list_malformed(rng, w, df, a):
    p = a["param_list"]
    how = int(rng.randint(4))
    if how == 0:
        a["param_list"] = p[:3]
    elif how == 1:
        a["param_list"] = p + [None]
    elif how == 2:
        a["param_list"] = tuple(p)
    else:
        a["param_list"] = [None if x is None else x.tolist() for x in p]
    return df, a


@fault("predict", *LOGITS)
def parameter_columns_disagree(rng, w, df, a):
    p = a["param_list"]
    have = [j for j in range(4) if p[j] is not None]
    if len(have) < 2:
        raise Skip("one parameter array only")
    p2 = [None if x is None else np.column_stack([x, x]) for x in p]
    k = gen.pick(rng, have)
    p2[k] = np.column_stack([p[k]] * 3) if rng.rand() < .5 else p[k]
    a["param_list"] = p2
    return df, a


# ---------------------------------------------------------------- conversion
# long to wide: f(rng, d, df, args)  args: ind, asv, sub, kw

@fault("l2w")
def long_column_missing(rng, d, df, a):
    c = [d["ocol"], d["acol"], d["ccol"]] + a["ind"] + a["asv"] + \
        list(a["sub"])
    return df.drop(columns=[gen.pick(rng, c)]), a


@fault("l2w")
def long_duplicated_row(rng, d, df, a):
    df.index = np.arange(len(df))
    k = int(rng.randint(len(df)))
    if df[d["ccol"]].values[k] == 1 and rng.rand() < .7:
        z = np.nonzero(df[d["ccol"]].values == 0)[0]
        k = int(z[0]) if len(z) else k
    return pd.concat([df, df.iloc[[k]]], axis=0), a


@fault("l2w")
def long_no_choice(rng, d, df, a):
    k = np.nonzero(df[d["ccol"]].values == 1)[0]
    v = df[d["ccol"]].values.copy()
    v[gen.pick(rng, k)] = 0
    df[d["ccol"]] = v
    return df, a


@fault("l2w")
def long_several_choices(rng, d, df, a):
    k = np.nonzero(df[d["ccol"]].values == 0)[0]
    if not len(k):
        raise Skip("every row is chosen")
    v = df[d["ccol"]].values.copy()
    v[gen.pick(rng, k)] = 1
    df[d["ccol"]] = v
    return df, a


@fault("l2w")
def long_choices_compensate(rng, d, df, a):
    """One observation without a choice, another one with two."""
    ch, o = df[d["ccol"]].values.copy(), df[d["ocol"]].values
    zero = np.nonzero(ch == 0)[0]
    if not len(zero):
        raise Skip("every row is chosen")
    z = gen.pick(rng, zero)
    one = [k for k in np.nonzero(ch == 1)[0] if o[k] != o[z]]
    if not one:
        raise Skip("one observation")
    ch[z], ch[gen.pick(rng, one)] = 1, 0
    df[d["ccol"]] = ch
    return df, a


@fault("l2w")
def long_names_incomplete(rng, d, df, a):
    nm = {x: "n%d" % k for k, x in enumerate(d["alts"])}
    if rng.rand() < .5:
        nm.pop(gen.pick(rng, d["alts"]))
    else:
        nm[max(d["alts"]) + 3] = "more"
        nm.pop(d["alts"][0])
    a["kw"]["alt_name_dict"] = nm
    return df, a


@fault("l2w")
def long_names_unknown(rng, d, df, a):
    """Names for every alternative and for one that does not exist."""
    nm = {x: "n%d" % k for k, x in enumerate(d["alts"])}
    nm[max(d["alts"]) + int(rng.randint(1, 5))] = "more"
    a["kw"]["alt_name_dict"] = nm
    return df, a


# wide to long: f(rng, df, args) args: ind, asv, avail, alts

@fault("w2l")
def wide_column_missing(rng, df, a):
    c = ["oid", "pick"] + a["ind"] + list(a["avail"].values()) + \
        [x for v in a["asv"].values() for x in v.values()]
    return df.drop(columns=[gen.pick(rng, c)]), a


@fault("w2l")
def wide_observation_twice(rng, df, a):
    if len(df) < 2:
        raise Skip("one row")
    v = df["oid"].values.copy()
    i, j = rng.choice(len(v), 2, replace=False)
    v[i] = v[j]
    df["oid"] = v
    return df, a


@fault("w2l")
def wide_choice_null(rng, df, a):
    v = df["pick"].values.astype(float).copy()
    v[int(rng.randint(len(v)))] = np.nan
    df["pick"] = v
    return df, a


@fault("w2l")
def wide_choice_unknown(rng, df, a):
    v = df["pick"].values.copy()
    v[int(rng.randint(len(v)))] = max(a["alts"]) + 4
    df["pick"] = v
    return df, a


@fault("w2l")
def wide_choice_unavailable(rng, df, a):
    k = int(rng.randint(len(df)))
    c = a["avail"][df["pick"].values[k]]
    v = df[c].values.copy()
    v[k] = 0
    df[c] = v
    return df, a


@fault("w2l")
def wide_alternative_without_availability(rng, df, a):
    av = dict(a["avail"])
    av.pop(gen.pick(rng, sorted(av)))
    a["avail"] = av
    return df, a


@fault("w2l")
def wide_never_chosen_alternative(rng, df, a):
    av = dict(a["avail"])
    df["av_new"] = 1
    av[max(a["alts"]) + 9] = "av_new"
    a["avail"] = av
    return df, a


# ----------------------------------------------------------------- intervals
# f(rng, reps, jack, est) -> callable

@fault("interval")
def confidence_level_invalid(rng, reps, jack, est):
    c = gen.pick(rng, [0, 100, -5, 120, 100.0, "95", None])
    if rng.rand() < .5:
        return lambda: bcalc.calc_percentile_interval(reps, c)
    return lambda: bcalc.calc_bca_interval(reps, jack, est, c)


@fault("interval")
def replicates_malformed(rng, reps, jack, est):
    bad = gen.pick(rng, [reps.tolist(), reps[:, 0], reps[None], None])
    k = int(rng.randint(3))
    if k == 0:
        return lambda: bcalc.calc_percentile_interval(bad, 90)
    if k == 1:
        return lambda: bcalc.calc_bca_interval(bad, jack, est, 90)
    badj = gen.pick(rng, [jack.tolist(), jack[:, 0], None])
    return lambda: bcalc.calc_bca_interval(reps, badj, est, 90)


@fault("interval")
def bootstrap_request_invalid(rng, reps, jack, est):
    n = int(rng.randint(4, 9))
    o = np.repeat(np.arange(n), 2)
    al = np.tile([1, 2], n)
    ch = np.tile([1, 0, 0, 1], n)[:2 * n]
    k = int(rng.randint(4))
    mk = bsamp.create_cross_sectional_bootstrap_samples
    mk(o, al, ch, 2, seed=3)
    df = pd.DataFrame({"o": o, "a": al, "c": ch, "x": rng.normal(size=2 * n)})
    if k == 0:
        bad = gen.pick(rng, ["3", 2.5, [1]])
        return lambda: mk(o, al, ch, 2, seed=bad)
    if k == 1:
        g = bsamp.create_deepcopied_groupby_dict(df, "o")
        ids = rng.choice(o, n)
        ids[int(rng.randint(n))] = 999
        return lambda: bsamp.create_bootstrap_dataframe(df, "o", ids, g)
    m = pl.create_choice_model(data=df, alt_id_col="a", obs_id_col="o",
                               choice_col="c", model_type="MNL",
                               specification=OD([("x", "all_same")]))
    b = boot.Boot(m, np.zeros(1))
    b.bootstrap_replicates = pd.DataFrame(reps[:, :1], columns=["x"])
    b.jackknife_replicates = pd.DataFrame(jack[:, :1], columns=["x"])
    if k == 2:
        bad = gen.pick(rng, ["percentile", "BCA", None, ""])
        return lambda: b.calc_conf_intervals(90, interval_type=bad)
    bad = gen.pick(rng, ["boot", "Jackknife", None])
    return lambda: b.calc_log_likes_for_replicates(replicates=bad)


REQUIRED = ["rejected_" + f[0] for f in FAULTS] + ["accepted", "files"]


def must_raise(ctx, fn, name, detail):
    try:
        with quiet():
            r = fn()
    except (Violation, Skip):
        raise
    except Exception as e:                                   # noqa
        ctx.ev("rejected_" + name)
        return e
    ctx.check(False, "fault not rejected: " + name, result=repr(r)[:300],
              **detail)


def small_fit(m, w, a):
    a = dict(a)
    init = a.pop("init_vals")
    base = dict(print_res=False, maxiter=1, just_point=True)
    if w["model"] == "Mixed Logit":
        base.update(num_draws=3, seed=5)
    base.update(a)
    with quiet():
        return m.fit_mle(init, **base)


def case(ctx, rng, tier, i):
    name, kind, f, models = FAULTS[i % len(FAULTS)]
    rnd = i // len(FAULTS)
    if kind in ("build", "fit", "predict"):
        model = models[(rnd + i) % len(models)] if rnd < 2 * len(models) \
            else gen.pick(rng, models)
        for _ in range(12):
            w = gen.world(rng, model, est=True, identified=True, named=True)
            try:
                one(ctx, rng, name, kind, f, w)
                return
            except Skip:
                continue
        raise Skip("no suitable world for " + name)
    for _ in range(12):
        try:
            {"l2w": l2w, "w2l": w2l, "interval": interval}[kind](
                ctx, rng, name, f)
            return
        except Skip:
            continue
    raise Skip("no suitable data for " + name)


# faults that survive being written to a file
FILE = {"spec_column_missing", "spec_column_text", "spec_column_nan",
        "spec_column_infinite", "id_column_missing",
        "observations_not_contiguous", "prediction_column_missing"}


def as_file(ctx, rng, name, df, clean, use):
    """Sometimes the data arrive as a CSV file: the fault-free file must be
    accepted. -> (the data to hand over, cleanup)"""
    if name not in FILE or rng.rand() > .4 or not isinstance(df,
                                                            pd.DataFrame):
        return df, None
    if name == "spec_column_text" and not any(
            (df[c] == "a").any() for c in df.columns
            if df[c].dtype == object and not (clean[c] == "a").any()):
        return df, None
    tmp = tempfile.mkdtemp(prefix="verif21")
    try:
        g, b = os.path.join(tmp, "good.csv"), os.path.join(tmp, "bad.csv")
        clean.to_csv(g, index=False)
        df.to_csv(b, index=False)
        use(g)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    ctx.ev("files")
    return b, tmp


def one(ctx, rng, name, kind, f, w):
    model = w["model"]
    w["R"], w["dseed"] = 3, 5
    th = gen.tame([w], gen.theta(rng, w, vmax=.5), vcap=3)[0]
    fitargs = {"init_vals": th.copy()}
    det = dict(model=model, config=w["sig"])

    def build(df, kw):
        with quiet():
            return pl.create_choice_model(data=df, **kw)

    def pargs():
        a = {"param_list": gen.param_list(w, th)}
        if model == "Mixed Logit":
            a.update(num_draws=3, seed=4)
        return a
    # --- the same input without the fault is accepted
    m = build(w["df"].copy(), copy.deepcopy(w["kw"]))
    r = small_fit(m, w, copy.deepcopy(fitargs))
    ctx.check(len(np.asarray(r["x"])) == w["K"], "valid input gives "
              "estimates", **det)
    if model == "Mixed Logit":
        with quiet():
            m.fit_mle(th.copy(), num_draws=3, seed=5, ridge=1.0, maxiter=1,
                      print_res=False)
    nd = gen.new_data(rng, w)
    with quiet():
        p = m.predict(nd.copy(), **pargs())
    ctx.check(np.shape(p) == (len(nd),), "valid input gives predictions")
    ctx.ev("accepted")
    # --- with it, it is not
    tmp = None
    if kind == "build":
        df, kw = f(rng, w, w["df"].copy(), copy.deepcopy(w["kw"]))
        df, tmp = as_file(ctx, rng, name, df, w["df"], lambda g: small_fit(
            build(g, copy.deepcopy(w["kw"])), w, copy.deepcopy(fitargs)))

        def go():
            mm = build(df, kw)
            return small_fit(mm, w, copy.deepcopy(fitargs))
    elif kind == "fit":
        a = f(rng, w, copy.deepcopy(fitargs))
        det["args"] = repr(a)[:300]

        def go():
            return small_fit(m, w, a)
    else:
        df, a = f(rng, w, nd.copy(), pargs())
        df, tmp = as_file(ctx, rng, name, df, nd, lambda g: m.predict(
            g, **pargs()))
        det["args"] = repr(a)[:300]

        def go():
            if a.pop("panel", False):
                return m.panel_predict(df, **a)
            return m.predict(df, **a)
    ctx.sig(name, w["sig"])
    ctx.sample(fault=name, config=w["sig"])
    try:
        must_raise(ctx, go, name, dict(det, file=tmp is not None))
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def l2w(ctx, rng, name, f):
    d, ind, alt = c12.long_data(rng)
    ind, asv, sub = c12.request(rng, d, ind, alt)
    if not ind or not asv:
        raise Skip("too few variables")

    def go(df, a):
        return pl.convert_long_to_wide(
            df, list(a["ind"]), list(a["asv"]),
            {k: list(v) for k, v in a["sub"].items()}, d["ocol"], d["acol"],
            d["ccol"], **a["kw"])
    a = {"ind": ind, "asv": asv, "sub": sub, "kw": {}}
    df, a2 = f(rng, d, d["df"].copy(), copy.deepcopy(a))
    go(d["df"].copy(), a)
    ctx.ev("accepted")
    ctx.sig(name, d["kinds"], d["J"])
    ctx.sample(fault=name, kinds=d["kinds"])
    must_raise(ctx, lambda: go(df, a2), name, dict(kinds=d["kinds"]))


def w2l(ctx, rng, name, f):
    df, alts, av, avail, ind, asv, kinds = c13.wide_data(rng)

    def go(df, a):
        return pl.convert_wide_to_long(
            df, list(a["ind"]), {k: dict(v) for k, v in a["asv"].items()},
            dict(a["avail"]), "oid", "pick")
    a = {"ind": ind, "asv": asv, "avail": avail, "alts": alts}
    d2, a2 = f(rng, df.copy(), copy.deepcopy(a))
    go(df.copy(), a)
    ctx.ev("accepted")
    ctx.sig(name, kinds)
    ctx.sample(fault=name, kinds=kinds)
    must_raise(ctx, lambda: go(d2, a2), name, dict(kinds=kinds))


def interval(ctx, rng, name, f):
    K = int(rng.randint(1, 5))
    reps, jack = rng.normal(size=(30, K)), rng.normal(size=(9, K))
    reps[0], reps[1] = -2, 2
    est = np.zeros(K)
    bcalc.calc_percentile_interval(reps, 90)
    bcalc.calc_bca_interval(reps, jack, est, 90)
    ctx.ev("accepted")
    ctx.sig(name, K)
    ctx.sample(fault=name, K=K)
    must_raise(ctx, f(rng, reps, jack, est), name, {})
