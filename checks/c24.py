import copy
import os
import pickle
import signal
import traceback
from common import (np, pd, pl, ct, boot, bsamp, bcalc, quiet, probing)
import gen
import obsv
import c05
import c12
import c15
import picture
from core import Skip

ID = "C24"
CASES = {"quick": 150, "thorough": 2600}
KINDS = ["predict", "evaluate", "point", "fit", "fit_and_use", "panel",
         "bootstrap", "convert", "sampler", "create", "intervals",
         "mappings", "edit"]
REQUIRED = ["query_" + k for k in KINDS] + [
    "results_compared", "repeated_queries", "returned_values_rechecked",
    "shared_frame_sessions", "separate_processes"]
RULE = ("A case is a session in its own process: several models (of one or "
        "several types, some sharing one dataframe and the same argument "
        "objects) answer a random, repeating sequence of queries "
        "(evaluations of the likelihood, fits, predictions, panel "
        "predictions, bootstraps, conversions, samplers, intervals, model "
        "creation, calls repeated after the caller edited the arguments in "
        "place). Every answer is compared with the answer of a fresh "
        "model to this query alone, obtained in a process of its own in "
        "which nothing else was called; everything returned is compared "
        "again at the end with its picture at the time of return. Distinct: "
        "configurations and sequence.")
ASSUMPTIONS = ["simulation seeds are given",
               "answers equal up to a relative 1e-9"]


def in_child(fn, timeout=150):
    """Run fn in a forked process and return its (picklable) result."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                out = ("ok", fn())
            except Exception:                                  # noqa
                out = ("error", traceback.format_exc()[-3000:])
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f, protocol=2)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    try:
        with os.fdopen(r, "rb") as f:
            raw = f.read()
    finally:
        _, st = os.waitpid(pid, 0)
    if not raw:
        raise OSError("child gave no result (status %s)" % st)
    kind, val = pickle.loads(raw)
    if kind != "ok":
        raise RuntimeError("child failed:\n" + val)
    return val


# -- queries -----------------------------------------------------------------
def fit_kw(rng, w):
    kw = dict(print_res=False)
    if w["model"] == "Mixed Logit":
        kw.update(num_draws=int(rng.randint(2, 5)),
                  seed=int(rng.randint(1, 99)))
    wk, wt = gen.row_weights(rng, w)
    if wt is not None:
        kw["weights"] = wt
    if rng.rand() < .4:
        cons = c05.pick_fixed(rng, w)
        if cons:
            kw["constrained_pos"] = list(cons)
    if rng.rand() < .5:
        kw["ridge"] = float(gen.pick(rng, [.3, .7]))
    return kw


def make_query(rng, ws, kind):
    """A self-contained description: (kind, model number, arguments)."""
    k = int(rng.randint(len(ws)))
    if kind == "panel":
        c = [j for j, w in enumerate(ws) if w["model"] == "Mixed Logit"]
        if not c:
            return None
        k = c[int(rng.randint(len(c)))]
    if kind == "bootstrap":
        c = [j for j, w in enumerate(ws) if w["model"] != "Mixed Logit"]
        if not c:
            return None
        k = c[int(rng.randint(len(c)))]
    w = ws[k]
    mixed = w["model"] == "Mixed Logit"
    th = gen.tame([w], gen.theta(rng, w, vmax=.8), vcap=3)[0]
    th2 = gen.tame([w], gen.theta(rng, w, vmax=.8), vcap=3)[0]
    a = dict(th=th, th2=th2)
    if kind == "predict" and mixed:
        kind = "fit_and_use"
    if kind == "predict":
        a["data"] = None if rng.rand() < .3 else gen.new_data(rng, w)
        P = th
        if w["model"] != "Nested Logit" and rng.rand() < .3:
            P = np.column_stack([th, th2])
        a["kw"] = dict(param_list=gen.param_list(w, P))
        if rng.rand() < .4:
            a["kw"].update(choice_col=w["ccol"],
                           return_long_probs=bool(rng.rand() < .6))
    elif kind in ("evaluate", "point", "fit", "fit_and_use", "panel"):
        a["kw"] = fit_kw(rng, w)
        if kind in ("point", "fit"):
            a["kw"].update(maxiter=int(rng.randint(1, 5)),
                           method=gen.pick(rng, ["BFGS", "L-BFGS-B"]))
            a["kw"].setdefault("ridge", .5)
        if kind in ("fit_and_use", "panel"):
            a["kw"].setdefault("ridge", .5)
            a["data"] = None if rng.rand() < .3 else gen.new_data(rng, w)
            a["pkw"] = dict(num_draws=3, seed=int(rng.randint(1, 50))) \
                if mixed else {}
            if rng.rand() < .3:
                a["pkw"]["choice_col"] = w["ccol"]
    elif kind == "bootstrap":
        a["seed"] = int(rng.randint(1, 50))
        a["ridge"] = .5
        a["tseed"] = int(rng.randint(10 ** 6))
    elif kind == "convert":
        d, ind, alt = c12.long_data(rng)
        ind, asv, sub = c12.request(rng, d, ind, alt)
        nm = c12.alt_names(rng, d)
        a["args"] = (d["df"].copy(), list(ind), list(asv), dict(sub),
                     d["ocol"], d["acol"], d["ccol"])
        a["kw"] = {} if nm is None else dict(alt_name_dict=nm)
    elif kind == "sampler":
        a["n"], a["seed"] = int(rng.randint(1, 4)), int(rng.randint(1, 50))
    elif kind == "intervals":
        K = 4
        a["reps"], a["jack"] = rng.normal(size=(15, K)), rng.normal(
            size=(7, K))
        a["reps"][0], a["reps"][1] = -3, 3
        a["est"], a["level"] = np.zeros(K), float(gen.pick(rng, [50, 90, 95]))
    elif kind == "edit":
        # the caller edits their own objects in place between two calls
        a["data"] = gen.new_data(rng, w)
        a["cols"] = [c for c in w["spec"] if c in w["df"].columns and
                     c != "intercept"]
        a["kw"] = fit_kw(rng, w)
        a["weights"] = [rng.uniform(.5, 2, w["n_obs"])[w["obs_idx"]]
                        if not mixed else
                        rng.uniform(.5, 2, w["n_mix"])[w["mix_idx"]]
                        for _ in range(2)]
        a["kw"].setdefault("ridge", .5)
        a["pkw"] = dict(num_draws=3, seed=int(rng.randint(1, 50))) \
            if mixed else {}
    return kind, k, a


class Place(object):
    """The objects one process works with: shared frames and models."""

    def __init__(self, ws, direct=False):
        self.ws = ws
        self.direct = direct    # only the final call of an "edit" query
        self.frames = {}
        self.models = {}
        self.kept = []          # (label, live object, picture)

    def frame(self, k):
        fid = self.ws[k]["frame_id"]
        if fid not in self.frames:
            self.frames[fid] = self.ws[k]["df"].copy()
        return self.frames[fid]

    def model(self, k):
        if k not in self.models:
            with quiet():
                self.models[k] = pl.create_choice_model(
                    data=self.frame(k), **self.ws[k]["kw"])
        return self.models[k]

    def keep(self, label, x):
        if x is not None:
            self.kept.append((label, x, picture.freeze(x)))
        return x

    def changed(self):
        return [lab for lab, x, pic in self.kept
                if picture.freeze(x) != pic]

    def answer(self, q):
        kind, k, a = q
        try:
            with quiet():
                return getattr(self, "do_" + kind)(self.ws[k], k, a)
        except Exception as e:                                 # noqa
            last = traceback.extract_tb(e.__traceback__)[-1]
            return ("raised", type(e).__name__, os.path.basename(
                last.filename))

    # each returns a picture
    def do_create(self, w, k, a):
        with quiet():
            m = pl.create_choice_model(data=self.frame(k), **w["kw"])
        return self.about(m)

    def do_predict(self, w, k, a):
        df = self.frame(k) if a["data"] is None else a["data"]
        r = self.model(k).predict(df, **a["kw"])
        self.keep("prediction", r)
        return picture.freeze(r)

    def do_evaluate(self, w, k, a):
        m = self.model(k)
        script = [("f", a["th"]), ("h", a["th"]), ("f", a["th2"]),
                  ("f", a["th"])]
        with probing(script, final=a["th2"]) as tr:
            r = m.fit_mle(a["th"], just_point=True, **a["kw"])
        t = tr[0]
        return [picture.freeze(x) for x in t.f] + \
            [picture.freeze(x) for x in t.h] + [picture.freeze(r["x"])]

    def do_point(self, w, k, a):
        r = self.model(k).fit_mle(a["th"], just_point=True, **a["kw"])
        self.keep("point estimate", r["x"])
        return [picture.freeze(np.asarray(r["x"])), float(r["fun"])]

    def hold(self, m):
        for at in ("params", "hessian", "cov", "fitted_probs",
                   "long_fitted_probs", "residuals", "ind_chi_squareds",
                   "standard_errors", "tvalues", "pvalues", "summary",
                   "fit_summary", "robust_cov", "robust_std_errs",
                   "fisher_information", "intercepts", "shapes", "coefs",
                   "nests", "design", "choices", "ind_var_names"):
            self.keep("attribute " + at, getattr(m, at, None))

    def do_fit(self, w, k, a):
        m = self.model(k)
        m.fit_mle(a["th"], **a["kw"])
        self.hold(m)
        return self.about(m)

    def about(self, m):
        """Public attributes, except wall-clock time and the caller's own
        frame (which may have got its column of ones)."""
        pic = picture.public(m)
        for key in ("estimation_time", "data"):
            pic.pop(key, None)
        return pic

    def do_fit_and_use(self, w, k, a):
        m = self.model(k)
        with probing([], final=a["th2"]):
            m.fit_mle(a["th"], **a["kw"])
        self.hold(m)
        df = self.frame(k) if a["data"] is None else a["data"]
        r = self.keep("prediction", m.predict(df, **a["pkw"]))
        ci = self.keep("confidence intervals", m.conf_int(return_df=True))
        s = m.get_statsmodels_summary()
        s = "" if s is None else "\n".join(
            x for x in str(s).splitlines() if "Time:" not in x
            and "Date:" not in x)
        return [picture.freeze(r), picture.freeze(ci), s, self.about(m)]

    def do_panel(self, w, k, a):
        m = self.model(k)
        with probing([], final=a["th2"]):
            m.fit_mle(a["th"], **a["kw"])
        self.hold(m)
        df = self.frame(k) if a["data"] is None else a["data"]
        pkw = {x: y for x, y in a["pkw"].items() if x != "choice_col"}
        r = self.keep("panel prediction", m.panel_predict(df, **pkw))
        return picture.freeze(r)

    def do_edit(self, w, k, a):
        """Call, edit the arguments in place, call again: the second answer
        is that of the edited arguments."""
        m = self.model(k)
        mixed = w["model"] == "Mixed Logit"
        df, est = a["data"].copy(), w["df"].copy()
        wt = a["weights"][0].copy()
        start = a["th"].copy()
        pars = gen.param_list(w, a["th"].copy())
        kw = dict(a["kw"], weights=wt)
        out = []

        def calls():
            if mixed:
                with probing([], final=a["th2"]):
                    m.fit_mle(start, **kw)
                r = [m.predict(df, **a["pkw"])]
            else:
                r = [m.predict(df, param_list=pars)]
            with quiet():
                new = pl.create_choice_model(data=est, **w["kw"])
            r.append(np.array(new.design))
            with probing([("f", start), ("h", start)], final=start) as tr:
                new.fit_mle(start, just_point=True, **kw)
            r += [x for x in tr[0].f] + [x for x in tr[0].h]
            return [picture.freeze(x) for x in r]
        if not self.direct:
            calls()
        for x in (df, est):
            for j, c in enumerate(a["cols"]):
                # rearranged within the column, in place
                x[c] = np.roll(x[c].values, j + 1)
        wt[:] = a["weights"][1]
        start[:] = a["th2"]
        for x, y in zip(pars, gen.param_list(w, a["th2"])):
            if x is not None:
                x[...] = y
        out.append(calls())
        return out

    def do_bootstrap(self, w, k, a):
        m = self.model(k)
        o = {"maxiter": 3, "method": "BFGS", "print_res": False,
             "ridge": a["ridge"]}
        if w["model"] != "MNL":
            tw = c15.mnl_twin(np.random.RandomState(a["tseed"]), w)
            o.update(mnl_obj=tw, mnl_init_vals=np.zeros(
                len(tw.ind_var_names)), mnl_fit_kwargs={
                    "print_res": False, "maxiter": 3, "ridge": .3})
        else:
            o["mnl_init_vals"] = np.zeros(w["K"])
        b = boot.Boot(m, a["th"])
        b.generate_bootstrap_replicates(2, boot_seed=a["seed"], **o)
        r = self.keep("replicates", b.bootstrap_replicates)
        return picture.freeze(r)

    def do_convert(self, w, k, a):
        r = self.keep("wide data", pl.convert_long_to_wide(
            *a["args"], **a["kw"]))
        return picture.freeze(r)

    def do_sampler(self, w, k, a):
        df = self.frame(k)
        S = bsamp.create_cross_sectional_bootstrap_samples(
            df[w["ocol"]].values, df[w["acol"]].values,
            df[w["ccol"]].values, a["n"], seed=a["seed"])
        self.keep("samples", S)
        g = bsamp.create_deepcopied_groupby_dict(df, w["ocol"])
        out = self.keep("resampled data", bsamp.create_bootstrap_dataframe(
            df, w["ocol"], S[-1], g))
        return [picture.freeze(S), picture.freeze(out.drop(
            columns=["intercept"], errors="ignore"))]

    def do_intervals(self, w, k, a):
        p = self.keep("interval", bcalc.calc_percentile_interval(
            a["reps"], a["level"]))
        b = self.keep("interval", bcalc.calc_bca_interval(
            a["reps"], a["jack"], a["est"], a["level"]))
        return [picture.freeze(p), picture.freeze(b)]

    def do_mappings(self, w, k, a):
        df = self.frame(k)
        M = ct.create_long_form_mappings(
            df, w["ocol"], w["acol"], choice_col=w["ccol"],
            nest_spec=w["nest_spec"], mix_id_col=w["pcol"]
            if w["model"] == "Mixed Logit" else None)
        spec = type(w["spec"])((x, y) for x, y in w["spec"].items()
                               if x in df.columns and x != "intercept")
        X = ct.create_design_matrix(df, spec, w["acol"])
        self.keep("mappings", M)
        self.keep("design", X)
        return [picture.freeze(M), picture.freeze(X)]


def diff(a, b, path=""):
    """Where two pictures differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for key in sorted(set(a) | set(b)):
            if key not in a or key not in b:
                return path + "/" + key + " (only one)"
            if not picture.near(a[key], b[key]):
                return diff(a[key], b[key], path + "/" + key)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b) and type(a) == type(b):
        for j, (x, y) in enumerate(zip(a, b)):
            if not picture.near(x, y):
                return diff(x, y, path + "/%d" % j)
    return path + ": " + show(a) + " against " + show(b)


def show(x):
    if isinstance(x, bytes):
        return repr(np.frombuffer(x)[:6]) if len(x) % 8 == 0 else repr(x[:48])
    return repr(x)[:200]


def case(ctx, rng, tier, i):
    J = int(gen.pick(rng, [2, 3, 4]))
    ws = []
    n_frames = int(rng.randint(1, 3))
    types = list(rng.permutation(gen.MODELS))
    types = types[:int(rng.randint(1, 4))]
    types[0] = gen.MODELS[i % len(gen.MODELS)]
    for f in range(n_frames):
        d = gen.data(rng, J=J if rng.rand() < .6 else None, est=True,
                     panel=True, n=int(rng.randint(7, 12)))
        if d["J"] > 5:
            d = gen.data(rng, J=3, est=True, panel=True, n=8)
        for c in range(int(rng.randint(1, 4)) if f == 0 else 1):
            w = gen.world(rng, str(gen.pick(rng, types)), identified=True,
                          named=True, d=d)
            w["frame_id"] = f
            # one caller frame per id: the column of ones may or may not be
            # there already
            w["df"] = d["df"]
            ws.append(w)
    kinds = [str(x) for x in rng.choice(KINDS, int(rng.randint(3, 7)))]
    kinds[0] = KINDS[i % len(KINDS)]
    if rng.rand() < .7:
        kinds[1] = gen.pick(rng, ["evaluate", "fit", "fit_and_use"])
    qs = [make_query(rng, ws, k) for k in kinds]
    qs = [q for q in qs if q is not None]
    if not qs:
        raise Skip("no query")
    seq = [int(x) for x in rng.randint(len(qs), size=len(qs))]
    seq = [int(x) for x in rng.permutation(list(range(len(qs))) * 2 + seq)]
    ctx.sig([w["sig"] for w in ws], [(qs[j][0], qs[j][1], j) for j in seq])
    ctx.sample(models=[w["model"] for w in ws],
               sequence=[qs[j][0] + "@%d" % qs[j][1] for j in seq])
    want = []
    for q in qs:
        want.append(in_child(lambda: Place(ws, True).answer(q)))
        ctx.ev("separate_processes")

    def session():
        pl_ = Place(ws)
        out = [pl_.answer(qs[j]) for j in seq]
        return out, pl_.changed(), len(pl_.kept)
    got, changed, kept = in_child(session)
    seen = set()
    for step, (j, g) in enumerate(zip(seq, got)):
        if not picture.near(g, want[j]):
            hist = ["%s@%d" % (qs[x][0], qs[x][1]) for x in seq[:step + 1]]
            ctx.check(False, "the answer to %s depends on what was called "
                      "before" % qs[j][0], history=hist,
                      models=[w["sig"] for w in ws],
                      difference=diff(g, want[j]))
        ctx.ev("results_compared")
        ctx.ev("query_" + qs[j][0])
        if isinstance(g, tuple) and g and g[0] == "raised":
            ctx.ev("raised_" + g[1])
        if j in seen:
            ctx.ev("repeated_queries")
        seen.add(j)
    ctx.check(not changed, "values returned earlier were changed by later "
              "calls", changed=changed[:5],
              history=["%s@%d" % (qs[x][0], qs[x][1]) for x in seq])
    ctx.ev("returned_values_rechecked", kept)
    if len([w for w in ws if w["frame_id"] == 0]) > 1:
        ctx.ev("shared_frame_sessions")
