"""Loads saved models in a fresh process and reports what they are and do.
usage: pickle_child.py JOB.pkl OUT.pkl"""
import sys
import pickle
import traceback
from common import np, quiet
import picture


def use(job, m):
    out = {"state": picture.model(m)}
    for key in ("predict", "refit", "panel", "summary"):
        try:
            out[key] = getattr(sys.modules[__name__], key)(job, m)
        except Exception as e:                                # noqa
            out[key] = ("raised", type(e).__name__, str(e)[:200],
                        traceback.format_exc()[-600:])
    return out


def predict(job, m):
    res = []
    for df, kw in job["predict"]:
        with quiet():
            r = m.predict(df.copy(), **kw)
        res.append(picture.freeze(r if isinstance(r, tuple)
                                  else np.asarray(r)))
    return res


def panel(job, m):
    res = []
    for df, kw in job.get("panel", []):
        with quiet():
            r = m.panel_predict(df.copy(), **kw)
        res.append(picture.freeze(np.asarray(r)))
    return res


def summary(job, m):
    if not job.get("summary"):
        return None
    with quiet():
        ci = m.conf_int(return_df=True)
    return picture.freeze(ci)


def refit(job, m):
    if job.get("refit") is None:
        return None
    init, kw = job["refit"]
    with quiet():
        r = m.fit_mle(init.copy(), just_point=True, **kw)
    return picture.freeze(np.asarray(r["x"])), float(r["fun"])


if __name__ == "__main__":
    jobs = pickle.load(open(sys.argv[1], "rb"))
    res = []
    for job in jobs:
        try:
            with open(job["path"], "rb") as f:
                m = pickle.load(f)
            res.append(use(job, m))
        except Exception as e:                                # noqa
            res.append({"load": ("raised", type(e).__name__, str(e)[:300])})
    with open(sys.argv[2], "wb") as f:
        pickle.dump(res, f)
