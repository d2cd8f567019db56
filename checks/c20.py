import copy
import os
import shutil
import tempfile
from collections import OrderedDict
from common import (np, pd, pl, ct, cc, boot, bsamp, bcalc, babc, quiet,
                    probing)
import gen
import obsv
import c05
import c07
import c12
import c13
import c15
from core import Skip
from picture import freeze

ID = "C20"
CASES = {"quick": 560, "thorough": 9000}
OPS = ["create", "fit", "predict", "panel_predict", "long_to_wide",
       "wide_to_long", "bootstrap", "jackknife", "intervals", "abc",
       "design_and_mappings", "sampler", "summaries", "pickle"]
REQUIRED = ["call_" + o for o in OPS] + ["objects_compared",
                                         "intercept_added", "extreme_parameters"]
RULE = ("A case is a session: one world of caller-owned objects (frames, "
        "specifications, names, nests, arrays, option dictionaries) and a "
        "random sequence of library calls on them; after every call each "
        "caller-owned object handed over so far is compared bit for bit, "
        "including dtypes, index, column order, container types and element "
        "identity of lists, with a deep snapshot. Distinct: configuration "
        "and sequence of operations.")
ASSUMPTIONS = ["the one permitted change is a column of ones named "
               "'intercept' when the specification asks for it"]


def drop_intercept(fz):
    """Remove a column 'intercept' of ones from a frame picture."""
    if fz[0] != "frame":
        return fz, False
    cols = list(fz[1])
    if repr("intercept") not in cols:
        return fz, False
    k = cols.index(repr("intercept"))
    arr = fz[5][k]
    if arr[0] != "arr" or not np.all(np.frombuffer(
            arr[3], dtype=arr[1]) == 1):
        return fz, False
    cut = lambda t: t[:k] + t[k + 1:]                          # noqa: E731
    return ("frame", cut(fz[1]), cut(fz[2]), fz[3], fz[4],
            cut(fz[5])), True


class Session(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.objs = []          # (label, object, picture, may get intercept)

    def own(self, label, x, icpt=False):
        """Register a caller-owned object and hand it out."""
        if x is not None and not any(o is x for _, o, _, _ in self.objs):
            self.objs.append((label, x, freeze(x), icpt))
        return x

    def verify(self, op):
        for k, (label, x, pic, icpt) in enumerate(self.objs):
            now = freeze(x)
            self.ctx.ev("objects_compared")
            if now == pic:
                continue
            if icpt:
                cut, had = drop_intercept(now)
                if had and cut == pic:
                    self.ctx.ev("intercept_added")
                    self.objs[k] = (label, x, now, icpt)
                    continue
            self.ctx.check(False, "%s changed by %s" % (label, op),
                           before=repr(pic)[:600], after=repr(now)[:600])
        self.ctx.ev("call_" + op)


def fit_options(s, rng, w):
    kw = {}
    wk, wt = gen.row_weights(rng, w)
    if wt is not None:
        if rng.rand() < .3:
            wt = np.round(wt).astype(int)
        elif rng.rand() < .3:
            wt[wt == wt.min()] = 1e-14
        kw["weights"] = s.own("weights", wt)
    if rng.rand() < .5:
        cons = c05.pick_fixed(rng, w)
        if cons is not None:
            kw["constrained_pos"] = s.own("constrained positions",
                                          list(cons))
    if rng.rand() < .3 and w["model"] != "Nested Logit":
        kw["ridge"] = .5
    return kw


def model_kwargs(s, w):
    kw = {}
    for k, v in w["kw"].items():
        kw[k] = s.own(k, copy.deepcopy(v)) if isinstance(
            v, (dict, list)) else v
    return kw


def guarded(ctx, w, fn):
    """Run a library call; optimizer and linear algebra breakdowns are not
    this property's business."""
    try:
        with quiet():
            return fn()
    except (np.linalg.LinAlgError, ZeroDivisionError):
        return None
    except ValueError as e:
        import traceback
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if "scipy" in last or "numpy" in last or "weights" in str(e):
            return None
        raise


def boot_options(s, rng, w):
    o = {"maxiter": 5, "method": "BFGS", "print_res": False}
    if w["model"] != "MNL":
        tw = c15.mnl_twin(rng, w)
        o["mnl_obj"] = tw
        o["mnl_init_vals"] = s.own("mnl_init_vals", np.zeros(
            len(tw.ind_var_names)))
        o["mnl_fit_kwargs"] = s.own("mnl_fit_kwargs", {
            "print_res": False, "maxiter": 5, "ridge": .3,
            "constrained_pos": [0]} if rng.rand() < .5 else
            {"print_res": False, "maxiter": 5, "ridge": .3})
    elif rng.rand() < .6:
        o["mnl_init_vals"] = s.own("mnl_init_vals", np.zeros(w["K"]))
    o.update(fit_options(s, rng, w))
    return o


def model_session(ctx, rng, i, model):
    s = Session(ctx)
    w = gen.world(rng, model, est=True, identified=True, named=True,
                  J=int(gen.pick(rng, [2, 3, 4])), n=int(rng.randint(9, 18)))
    w["R"], w["dseed"] = 4, 7
    if rng.rand() < .3:
        # integer and single-precision covariates, named index
        for v in w["vn"][:2]:
            if rng.rand() < .5:
                w["df"][v] = w["df"][v].astype(np.float32)
            else:
                w["df"][v] = np.round(w["df"][v]).astype(int)
        w["df"].index.name = "row"
        w = gen.on_data(w, w["df"])
    data = s.own("estimation data", w["df"].copy(), "intercept" in w["spec"])
    kw = model_kwargs(s, w)
    with quiet():
        m = pl.create_choice_model(data=data, **kw)
    s.verify("create")
    ops = [gen.pick(rng, ["fit", "predict", "panel_predict", "bootstrap",
                          "jackknife", "intervals", "abc", "sampler",
                          "design_and_mappings", "summaries", "pickle"])
           for _ in range(int(rng.randint(3, 6)))]
    ops = ["fit"] + [o for k, o in enumerate(ops) if o not in
                     ("abc", "jackknife", "bootstrap") or o not in ops[:k]]
    if model == "Nested Logit" and "abc" in ops and rng.rand() < .6:
        ops.remove("abc")
    if model == "Mixed Logit":
        ops = [o for o in ops if o not in ("bootstrap", "jackknife", "abc",
                                           "intervals")]
    ctx.sig(w["sig"], ops)
    ctx.sample(config=w["sig"], operations=ops)
    fitted = False
    for op in ops:
        th = gen.tame([w], gen.theta(rng, w, vmax=.6), vcap=3)[0]
        if op == "fit":
            init = s.own("starting values", th)
            o = fit_options(s, rng, w)
            if model == "Mixed Logit":
                o.update(num_draws=4, seed=7)
            pt = rng.rand() < .25
            o.update(maxiter=int(rng.randint(1, 8)), print_res=False,
                     method=gen.pick(rng, ["BFGS", "L-BFGS-B", "CG" if model ==
                                           "Nested Logit" else "Newton-CG"]))
            if pt:
                o["just_point"] = True
            elif rng.rand() < .5:
                o.setdefault("ridge", .4)
            if model in ("Asym", "Cloglog", "Scobit", "Uneven") and \
                    rng.rand() < .4:
                _, extra = c07.start_kwargs(rng, w, init)
                for k, v in extra.items():
                    o[k] = s.own(k, v)
                if extra:
                    init = None
            far = gen.pick(rng, [th, th * 1e3, th * 1e5])
            pr = probing([("f", th), ("f", far)], final=th) if rng.rand() < .5 else \
                quiet()
            with pr:
                guarded(ctx, w, lambda: m.fit_mle(init, **o))
            fitted = fitted or hasattr(m, "params") and m.params is not None
        elif op == "predict":
            nd = gen.new_data(rng, w)
            if "intercept" in nd.columns and rng.rand() < .7:
                del nd["intercept"]
            nd = s.own("prediction data", nd, "intercept" in w["spec"])
            o = {}
            if model == "Mixed Logit":
                if not fitted:
                    continue
                o = dict(num_draws=3, seed=4)
            if rng.rand() < .4:
                o["choice_col"] = w["ccol"]
            if rng.rand() < .7 or not fitted:
                P = th
                if rng.rand() < .25:
                    P = th * gen.pick(rng, [1e3, 1e6, -1e4])
                    ctx.ev("extreme_parameters")
                if model not in ("Mixed Logit", "Nested Logit") and \
                        rng.rand() < .4:
                    P = np.column_stack([P, .5 * th])
                o["param_list"] = s.own("parameter list",
                                        gen.param_list(w, P))
            guarded(ctx, w, lambda: m.predict(nd, **o))
        elif op == "panel_predict":
            if model != "Mixed Logit" or not fitted:
                continue
            nd = gen.new_data(rng, w)
            nd = s.own("prediction data", nd, "intercept" in w["spec"])
            guarded(ctx, w, lambda: m.panel_predict(nd, 3, seed=5))
        elif op in ("bootstrap", "jackknife"):
            o = boot_options(s, rng, w)
            b = boot.Boot(m, s.own("estimates", th))
            if op == "bootstrap":
                guarded(ctx, w, lambda: b.generate_bootstrap_replicates(
                    2, boot_seed=3, **o))
            else:
                o.pop("weights", None)
                seen = w["df"].groupby(w["df"][w["acol"]].values)[
                    w["ocol"]].nunique()
                if seen.min() < 2 or w["n_obs"] > 14:
                    continue
                guarded(ctx, w, lambda: b.generate_jackknife_replicates(**o))
        elif op == "intervals":
            K = w["K"]
            reps = s.own("replicates", rng.normal(size=(20, K)))
            jk = s.own("jackknife replicates", rng.normal(size=(8, K)))
            est = s.own("estimates", np.zeros(K))
            reps[0], reps[1] = -1, 1
            s.objs = [x for x in s.objs if x[1] is not reps]
            s.own("replicates", reps)
            bcalc.calc_percentile_interval(reps, 90)
            bcalc.calc_bca_interval(reps, jk, est, 90)
            b = boot.Boot(m, est)
            b.bootstrap_replicates = s.own("replicates", pd.DataFrame(
                reps.copy(), columns=w["pnames"]))
            b.jackknife_replicates = s.own("replicates", pd.DataFrame(
                jk.copy(), columns=w["pnames"]))
            with quiet():
                b.calc_percentile_interval(90)
                b.calc_bca_interval(90)
                b.calc_log_likes_for_replicates()
                gw = s.own("weights", np.ones(len(data)))
                b.calc_gradient_norm_for_replicates(weights=gw)
        elif op == "abc":
            o = {"maxiter": 1, "print_res": False, "ridge": .5}
            if rng.rand() < .6:
                o["weights"] = s.own("weights", np.ones(len(data)) * 1.5)
            if rng.rand() < .3:
                o["options_list"] = None
                o.pop("options_list")
            est, init = s.own("estimates", th), s.own(
                "starting values", np.zeros(w["K"]))
            if w["n_obs"] > 12:
                continue
            guarded(ctx, w, lambda: babc.calc_abc_interval(
                m, est, init, 60, **o))
        elif op == "sampler":
            oi = s.own("id array", data[w["ocol"]].values)
            ai = s.own("id array", data[w["acol"]].values)
            ci = s.own("choice array", data[w["ccol"]].values)
            S = bsamp.create_cross_sectional_bootstrap_samples(oi, ai, ci, 3,
                                                               seed=4)
            S = s.own("sample array", S)
            bid = s.own("id array", bsamp.create_bootstrap_id_array(S))
            g = bsamp.create_deepcopied_groupby_dict(data, w["ocol"])
            out = bsamp.create_bootstrap_dataframe(data, w["ocol"], S[0], g)
            # the resample is the library's own copy: writing to it leaves
            # the caller's data alone
            for c in list(out.columns):
                if out[c].dtype.kind == "f":
                    out[c].values[:] = -77.0
            out.iloc[:, 0] = out.iloc[0, 0]
        elif op == "design_and_mappings":
            dd = data
            if "intercept" in w["spec"] and "intercept" not in dd.columns:
                continue
            spec = s.own("specification", copy.deepcopy(w["spec"]))
            nm = s.own("names", copy.deepcopy(w["names"]))
            ct.create_design_matrix(dd, spec, w["acol"], names=nm)
            ct.create_long_form_mappings(
                dd, w["ocol"], w["acol"], choice_col=w["ccol"],
                nest_spec=s.own("nest_spec", copy.deepcopy(w["nest_spec"])),
                mix_id_col=w.get("pcol"), dense=rng.rand() < .5)
        elif op == "summaries":
            if not fitted or getattr(m, "params", None) is None:
                continue
            with quiet():
                try:
                    m.get_statsmodels_summary()
                    m.print_summaries()
                    if getattr(m, "standard_errors", None) is not None:
                        cl = s.own("list of coefficients",
                                   list(w["pnames"][:2]))
                        m.conf_int(coefs=cl)
                        m.conf_int(alpha=.1, coefs=cl, return_df=True)
                except np.linalg.LinAlgError:
                    pass
        elif op == "pickle":
            tmp = tempfile.mkdtemp(prefix="c20_")
            try:
                with quiet():
                    m.to_pickle(os.path.join(tmp, "m"))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        s.verify(op)


def conversion_session(ctx, rng):
    s = Session(ctx)
    if rng.rand() < .5:
        d, ind, alt = c12.long_data(rng)
        ind, asv, sub = c12.request(rng, d, ind, alt)
        nm = c12.alt_names(rng, d)
        df = s.own("long data", d["df"].copy())
        a = [s.own("list of variables", list(ind)),
             s.own("list of variables", list(asv)),
             s.own("subset dictionary", {k: list(v) for k, v in
                                         sub.items()})]
        kw = {} if nm is None else {"alt_name_dict": s.own("names", nm)}
        ctx.sig("l2w", d["kinds"], len(ind), len(asv), len(sub))
        ctx.sample(direction="long to wide", kinds=d["kinds"])
        wide = pl.convert_long_to_wide(df, a[0], a[1], a[2], d["ocol"],
                                       d["acol"], d["ccol"], **kw)
        s.verify("long_to_wide")
    else:
        df, alts, av, avail, ind, asv, kinds = c13.wide_data(rng)
        df = s.own("wide data", df.copy())
        a = [s.own("list of variables", list(ind)),
             s.own("variable dictionary", {k: dict(v) for k, v in
                                           asv.items()}),
             s.own("availability dictionary", dict(avail))]
        ctx.sig("w2l", kinds, len(ind), len(asv))
        ctx.sample(direction="wide to long", kinds=kinds)
        wide = pl.convert_wide_to_long(df, a[0], a[1], a[2], "oid", "pick")
        s.verify("wide_to_long")
    # the result is the caller's: writing to it leaves the input alone
    for c in list(wide.columns):
        if wide[c].dtype.kind == "f":
            wide[c].values[:] = -55.0
    s.verify("wide_to_long" if "wide" in s.objs[0][0] else "long_to_wide")


def case(ctx, rng, tier, i):
    if i % 8 == 7:
        conversion_session(ctx, rng)
    else:
        model_session(ctx, rng, i, gen.MODELS[i % 8 if i % 8 < 7 else 0])
