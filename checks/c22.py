import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from common import np, pd, pl, mlc, probing, quiet
import gen
import obsv
import c05
import picture
import pickle_child
from core import Skip

ID = "C22"
CASES = {"quick": 64, "thorough": 1200}
REQUIRED = ["saved_models", "attributes_compared", "predictions_compared",
            "refits_compared", "fresh_process_loads", "unfitted_models",
            "fitted_models"] + ["model_" + m.split()[0] for m in gen.MODELS]
RULE = ("A case saves one model of each of the seven types (not fitted, "
        "point estimate only, or fully fitted, with weights, ridge and fixed "
        "parameters), loads it back in this process and in a fresh one, and "
        "compares every attribute, predictions on several datasets, panel "
        "predictions and a refit (up to a relative 1e-9). Distinct: "
        "configuration and "
        "estimation state.")
ASSUMPTIONS = ["the same interpreter and library versions on both sides"]


def prepare(ctx, rng, model, tmp, k):
    w = gen.world(rng, model, est=True, named=rng.rand() < .8,
                  identified=True, J=int(gen.pick(rng, [2, 3, 4])),
                  n=int(rng.randint(8, 16)))
    w["R"], w["dseed"] = 3, 5
    m = gen.build(pl, w)
    state = gen.pick(rng, ["new", "point", "fitted", "fitted", "fitted",
                           "refitted"])
    th = gen.tame([w], gen.theta(rng, w, vmax=.6), vcap=3)[0]
    o = {}
    wk, wt = gen.row_weights(rng, w)
    if wt is not None:
        o["weights"] = wt
    if rng.rand() < .3:
        cons = c05.pick_fixed(rng, w)
        if cons:
            o["constrained_pos"] = list(cons)
    with quiet():
        if state == "point":
            gen.fit(m, w, th, just_point=True, maxiter=2, **o)
        elif state != "new":
            for r in range(2 if state == "refitted" else 1):
                t = gen.tame([w], gen.theta(rng, w, vmax=.6), vcap=3)[0]
                try:
                    if rng.rand() < .7:
                        with probing([], final=t):
                            gen.fit(m, w, t, **o)
                    else:
                        gen.fit(m, w, t, maxiter=4, ridge=.5, **o)
                except np.linalg.LinAlgError:
                    state = "point"
    fitted = getattr(m, "params", None) is not None
    sets = [w["df"].copy(), gen.new_data(rng, w)]
    job = {"predict": [], "panel": [], "summary": False}
    mixed = model == "Mixed Logit"
    for df in sets:
        kw = dict(num_draws=3, seed=8) if mixed else {}
        if fitted and (mixed or rng.rand() < .6):
            if rng.rand() < .5:
                kw["choice_col"] = w["ccol"]
            job["predict"].append((df, kw))
        elif w["named"] and not mixed:
            job["predict"].append((df, dict(kw, param_list=gen.param_list(
                w, th))))
        if mixed and fitted:
            job["panel"].append((df, dict(num_draws=3, seed=9)))
    job["summary"] = fitted and getattr(m, "standard_errors", None) \
        is not None
    kw = dict(maxiter=2, print_res=False, method="BFGS")
    if mixed:
        kw.update(num_draws=3, seed=6)
    job["refit"] = (th.copy(), kw)
    before = picture.model(m)
    path = os.path.join(tmp, gen.pick(rng, [
        "m %d", "m%d.pkl.v2", "m%dpkl", "m.%d", "m%d.PKL"]) % k)
    if rng.rand() < .5:
        path += ".pkl"
    with quiet():
        m.to_pickle(path)
        if rng.rand() < .3:
            m.to_pickle(path)
    if not path.endswith(".pkl"):
        path += ".pkl"
    ctx.check(os.path.exists(path), "saved under the given name plus .pkl",
              files=os.listdir(tmp))
    job["path"] = path
    same(ctx, before, picture.model(m), "saving leaves the model alone")
    ctx.ev("saved_models")
    ctx.ev("model_" + model.split()[0])
    ctx.ev("fitted_models" if fitted else "unfitted_models")
    return w, m, job, state


def same(ctx, a, b, what):
    # private attributes (caches and the like) are no part of the model
    a, b = [{k: v for k, v in x.items() if k == "__class__" or
             not k.startswith("_")} for x in (a, b)]
    ctx.check(set(a) == set(b), what + ": attributes",
              missing=sorted(set(a) - set(b)), extra=sorted(set(b) - set(a)))
    for key in a:
        ctx.check(picture.near(a[key], b[key]), what + ": attribute " + key,
                  before=repr(a[key])[:400], after=repr(b[key])[:400])
        ctx.ev("attributes_compared")


def compare(ctx, want, got, what, sig):
    ctx.check("load" not in got, what + ": loading", got=got.get("load"),
              config=sig)
    same(ctx, want["state"], got["state"], what)
    for key in ("predict", "panel", "summary", "refit"):
        a, b = want[key], got[key]
        if isinstance(a, tuple) and a and a[0] == "raised":
            # the original cannot do it either
            ctx.check(isinstance(b, tuple) and b[:2] == a[:2],
                      what + ": " + key, before=a, after=b, config=sig)
            continue
        ctx.check(picture.near(a, b), what + ": " + key, before=repr(a)[:400],
                  after=repr(b)[:600], config=sig)
        if a:
            ctx.ev({"refit": "refits_compared"}.get(
                key, "predictions_compared"))


def case(ctx, rng, tier, i):
    tmp = tempfile.mkdtemp(prefix="c22_")
    try:
        jobs, wants, sigs = [], [], []
        for k, model in enumerate(gen.MODELS):
            w, m, job, state = prepare(ctx, rng, model, tmp, k)
            with open(job["path"], "rb") as f:
                m2 = pickle.load(f)
            want = pickle_child.use(job, m)
            got = pickle_child.use(job, m2)
            compare(ctx, want, got, "loaded in the same process", w["sig"])
            jobs.append(job)
            wants.append(want)
            sigs.append(w["sig"] + state)
        ctx.sig(*sigs)
        ctx.sample(configs=sigs[:2])
        with open(os.path.join(tmp, "job"), "wb") as f:
            pickle.dump(jobs, f)
        env = dict(os.environ)
        env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
        r = subprocess.run(
            [sys.executable, "-W", "ignore", pickle_child.__file__,
             os.path.join(tmp, "job"), os.path.join(tmp, "out")],
            env=env, cwd=tmp, stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE, timeout=200)
        if not os.path.exists(os.path.join(tmp, "out")):
            raise OSError("fresh process failed: %s" % r.stderr[-500:])
        with open(os.path.join(tmp, "out"), "rb") as f:
            gots = pickle.load(f)
        for want, got, sig in zip(wants, gots, sigs):
            compare(ctx, want, got, "loaded in a fresh process", sig)
            ctx.ev("fresh_process_loads")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
