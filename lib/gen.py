"""Seeded generators of diverse choice data, specifications and models."""
from collections import OrderedDict as OD
import numpy as np
import pandas as pd
import ref

MODELS = ("MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit",
          "Mixed Logit")


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def alt_ids(rng, J):
    kind = pick(rng, ["one", "zero", "gaps", "neg", "mix10", "big"],
                [.25, .1, .25, .1, .2, .1])
    if kind == "one":
        ids = np.arange(1, J + 1)
    elif kind == "zero":
        ids = np.arange(J)
    elif kind == "gaps":
        ids = np.sort(rng.choice(np.arange(1, 60), J, replace=False))
    elif kind == "neg":
        ids = np.sort(rng.choice(np.arange(-40, 40), J, replace=False))
    elif kind == "mix10":
        lo = rng.choice(np.arange(1, 10), min(J // 2 + 1, 9, J - 1),
                        replace=False)
        hi = rng.choice(np.arange(10, 130), J - len(lo), replace=False)
        ids = np.sort(np.concatenate([lo, hi]))
    else:
        ids = np.sort(rng.choice(np.arange(1000, 90000), J, replace=False))
    return kind, [int(x) for x in ids]


def obs_ids(rng, n, est):
    kind = pick(rng, ["one", "gaps", "neg", "big", "huge"],
                [.4, .28, .14, .13, .05])
    if kind == "one":
        ids = np.arange(1, n + 1)
    elif kind == "huge":
        # consecutive ids that single precision cannot tell apart, also
        # beyond 32 bits
        ids = int(rng.randint(3 * 10 ** 7, 2 * 10 ** 9)) * \
            int(pick(rng, [1, 1, 1001])) + np.arange(n)
    elif kind == "gaps":
        ids = np.cumsum(rng.randint(1, 9, n))
    elif kind == "neg":
        ids = np.cumsum(rng.randint(1, 4, n)) - 2 * n
    else:
        ids = 10 ** 6 + np.cumsum(rng.randint(1, 999, n))
    if not est and rng.rand() < .6:
        ids = rng.permutation(ids)
    return kind, [int(x) for x in ids]


COLS = [("alt", "obs", "choice", "person"),
        ("alt_id", "obs_id", "CHOICE", "ID"),
        ("mode", "custom id", "y", "pid"),
        ("A", "situation", "chosen", "who"),
        ("alt_id", "observation_id", "choice", "individual")]
VARS = [["x", "z", "inc", "d"], ["travel_time", "travel cost", "income", "male"],
        ["TT", "CO", "GA", "LUG"], ["b", "a", "d", "c"],
        ["v10", "v1", "v2", "v-3"]]


def data(rng, J=None, n=None, est=True, full=None, panel=False, scale=None,
         min_size=1, contiguous=True, smooth=False):
    """Long-format data. est: numeric nondecreasing observation ids,
    contiguous rows, every alternative chosen at least once when possible."""
    if J is None:
        J = int(pick(rng, [2, 3, 4, 5, 6, 8, 11, 17, 27],
                     [.2, .28, .2, .14, .1, .04, .02, .01, .01]))
    ak, alts = alt_ids(rng, J)
    if n is None:
        n = int(rng.randint(max(J, 6), max(J, 6) + 16))
        u = rng.rand()
        if u < .03:
            n = int(rng.randint(60, 220))
        elif u < .04:
            n = int(rng.randint(270, 1100))
        elif u < .065 and full is not False:
            n, full, J = int(rng.randint(1, 3)), True, min(J, 6)
            alts = alts[:J]
    if not (full and n < 3):
        n = max(n, J)
    longpanel = panel and rng.rand() < .07 and not smooth
    if longpanel:
        n = max(n, int(rng.randint(40, 160)))
    ok, obs = obs_ids(rng, n, est)
    if full is None:
        full = rng.rand() < .35
    setkind = "full" if full else pick(rng, ["rand", "small", "two"],
                                       [.6, .2, .2])
    acol, ocol, ccol, pcol = pick(rng, COLS)
    vn = pick(rng, VARS)
    rows = []
    inner = pick(rng, ["sorted", "shuffled", "reversed"], [.4, .4, .2])
    chosen = []
    must = list(rng.permutation(alts))
    for i in range(n):
        c = must[i] if i < J else None
        if setkind == "full":
            s = list(alts)
        elif setkind == "rand":
            k = rng.randint(min_size, J + 1)
            s = list(rng.choice(alts, k, replace=False))
        elif setkind == "small":
            k = min(J, max(min_size, rng.randint(1, 3)))
            s = list(rng.choice(alts, k, replace=False))
        else:
            k = pick(rng, [J, max(min_size, min(2, J))])
            s = list(rng.choice(alts, k, replace=False))
        if c is not None and c not in s:
            s.append(c)
        s = [int(x) for x in s]
        c = int(c) if c is not None else int(pick(rng, s))
        s = sorted(s)
        if inner == "shuffled":
            s = [int(x) for x in rng.permutation(s)]
        elif inner == "reversed":
            s = s[::-1]
        chosen.append(c)
        for a in s:
            rows.append((obs[i], a, int(a == c), i))
    perm = rng.permutation(n)          # decouple 'must' from row position
    if est:
        byobs = {}
        for r in rows:
            byobs.setdefault(r[3], []).append(r)
        rows = []
        for k, i in enumerate(perm):
            rows += [(obs[k], r[1], r[2], k) for r in byobs[i]]
    R = len(rows)
    oi = np.array([r[3] for r in rows])
    df = OD()
    df[ocol] = np.array([r[0] for r in rows])
    df[acol] = np.array([r[1] for r in rows])
    df[ccol] = np.array([r[2] for r in rows])
    sc = scale if scale is not None else pick(rng, [1.0, .3, 3.0])
    df[vn[0]] = rng.normal(0, sc, R)
    if smooth:
        df[vn[1]] = rng.uniform(-1, 1, R) * sc
    else:
        df[vn[1]] = pick(rng, [
            np.round(rng.uniform(-2, 2, R) * sc, 2), rng.randint(-2, 4, R),
            rng.exponential(sc, R), rng.randint(0, 2, R).astype(float),
            rng.randint(-2, 4, R).astype(np.int8),
            rng.normal(0, sc, R).astype(np.float32)])
        if rng.rand() < .06:
            df[vn[0]] = rng.randint(-3, 4, R)
    inc = rng.normal(0, 1, n) if rng.rand() < .6 else \
        rng.randint(0, 4, n)
    df[vn[2]] = inc[oi]
    df[vn[3]] = rng.randint(0, 2, n)[oi]
    if rng.rand() < .1:
        df[vn[3]] = df[vn[3]].astype(np.uint8)
    idk = pick(rng, [None, np.int32, np.int16, np.float64, np.uint16,
                     np.uint64], [.8, .04, .04, .04, .04, .04])
    if idk is not None and max(obs) < \
            {np.int16: 3e4, np.uint16: 6e4, np.int32: 2.1e9}.get(idk, 1e15) \
            and (min(obs) >= 0 or idk not in (np.uint16, np.uint64)):
        df[ocol] = df[ocol].astype(idk)
        if idk is np.float64 and rng.rand() < .5:
            df[ocol] = df[ocol] + .5            # ids need not be whole
    if rng.rand() < .08:
        df[acol] = df[acol].astype(np.int32)
    if panel:
        pk = pick(rng, ["blocks", "single", "interleaved"], [.5, .2, .3])
        if longpanel:
            # one or two individuals with very many choices
            pk, per = "long", np.sort(rng.randint(0, int(rng.randint(1, 3)),
                                                  n))
            per = per - per.min()
        elif pk == "single":
            per = np.arange(n)
        elif pk == "blocks":
            per = np.cumsum(rng.rand(n) < .45)
        else:
            per = rng.randint(0, max(2, n // 3), n)
        lab = rng.choice(np.arange(1, max(500, 3 * n)), int(per.max()) + 1, replace=False)
        lk = pick(rng, ["int", "neg", "text", "float"], [.6, .15, .15, .1])
        if lk == "neg":
            lab = lab - int(pick(rng, list(lab)))       # zero among them
        elif lk == "text":
            lab = np.array(["p%d" % x for x in lab], dtype=object)
        elif lk == "float":
            lab = lab + .5 * (lab % 2)
        df[pcol] = lab[per][oi]
        pk += "/" + lk
    else:
        pk = "none"
    df = pd.DataFrame(df)
    # irrelevant content: extra columns, column order, index
    if rng.rand() < .5:
        df["junk"] = [pick(rng, ["u", "v", "w"]) for _ in range(R)]
    if rng.rand() < .2:
        df["junk2"] = np.where(rng.rand(R) < .3, np.nan, 1.0)
    df = df[list(rng.permutation(np.array(df.columns, dtype=object)))]
    ck = pick(rng, ["int", "float", "int8", "bool"], [.65, .2, .1, .05])
    if ck == "float":
        df[ccol] = df[ccol].astype(float)
    elif ck == "int8":
        df[ccol] = df[ccol].astype(np.int8)
    elif ck == "bool":
        df[ccol] = df[ccol].astype(bool)
    ordk = "contig"
    if not contiguous:
        ordk = pick(rng, ["contig", "rows", "interleave"], [.3, .5, .2])
        if ordk == "rows":
            df = df.iloc[rng.permutation(R)]
        elif ordk == "interleave":
            df = df.iloc[np.argsort(df[acol].values, kind="stable")]
    df, ik = reindex(rng, df)
    return dict(df=df, J=J, alts=alts, acol=acol, ocol=ocol, ccol=ccol,
                pcol=pcol if panel else None, vn=vn, n=n,
                kinds=dict(alt=ak, obs=ok, sets=setkind, inner=inner,
                           choice=ck, order=ordk, index=ik, panel=pk))


def reindex(rng, df):
    k = pick(rng, ["range", "shift", "perm", "str", "dup", "multi", "named"],
             [.35, .15, .2, .12, .1, .04, .04])
    R = len(df)
    df = df.copy()
    if k == "range":
        df.index = np.arange(R)
    elif k == "shift":
        df.index = np.arange(R) + int(rng.randint(1, 50))
    elif k == "perm":
        df.index = rng.permutation(R)
    elif k == "str":
        df.index = ["r%d" % x for x in rng.permutation(R)]
    elif k == "multi":
        df.index = pd.MultiIndex.from_arrays(
            [rng.randint(0, 3, R), rng.permutation(R)])
    elif k == "named":
        df.index = pd.Index(rng.permutation(R),
                            name=pick(rng, list(df.columns)))
    else:
        df.index = rng.randint(0, max(2, R // 2), R)
    return df, k


def specification(rng, d, identified=False, intercepts=True, nmax=3,
                  all_diff=True):
    """A random specification; identified: keep the design full rank in the
    differences between alternatives."""
    alts, vn, J = d["alts"], d["vn"], d["J"]
    spec = OD()
    if intercepts and rng.rand() < .5:
        # intercepts in the index: all but one alternative
        drop = pick(rng, alts)
        keep = [a for a in alts if a != drop]
        if rng.rand() < .4:
            keep = [int(a) for a in rng.permutation(keep)]
        if J > 3 and rng.rand() < .3:
            keep = [[keep[0], keep[1]]] + keep[2:]
        if J > 5 and identified:
            keep = keep[:3]
        spec["intercept"] = keep
    pool = [0, 1] if identified else [0, 1, 2, 3]
    take = rng.permutation(pool)[:int(rng.randint(1, nmax + 1))]
    for t in take:
        v = vn[int(t)]
        kinds = ["same", "list", "groups"]
        if all_diff and (J <= 4 or not identified):
            kinds.append("diff")
        k = pick(rng, kinds)
        if t >= 2:
            k = pick(rng, ["list", "groups"] + (["diff", "same"]
                                                if not identified else []))
        if k == "same":
            spec[v] = "all_same"
        elif k == "diff":
            spec[v] = "all_diff"
        elif k == "list":
            m = int(rng.randint(1, J + (0 if t >= 2 else 1)))
            m = min(m, 4) if identified else m
            spec[v] = [int(a) for a in rng.choice(alts, m, replace=False)]
        else:
            p = [int(a) for a in rng.permutation(alts)]
            cut = int(rng.randint(1, J)) if J > 1 else 1
            g = [p[:cut], p[cut:]]
            if t >= 2 and identified:
                g = g[:1]
            if len(g) > 1 and rng.rand() < .3 and len(g[1]) > 1:
                g[1] = g[1][:-1]
            g = [x if len(x) > 1 or rng.rand() < .5 else x[0] for x in g]
            spec[v] = g
    items = list(spec.items())
    order = rng.permutation(len(items))
    spec = OD([items[int(i)] for i in order])
    return spec


def names_for(rng, spec, alts):
    """User-given coefficient names (unique)."""
    out = OD()
    k = [0]

    def nm(v):
        k[0] += 1
        return "%s coef %d" % (v, k[0]) if rng.rand() < .5 else \
            "B%d_%s" % (k[0], v)
    for v, how in spec.items():
        if isinstance(how, str) and how == "all_same":
            out[v] = nm(v)
        else:
            m = len(alts) if isinstance(how, str) else len(how)
            out[v] = [nm(v) for _ in range(m)]
    if rng.rand() < .4:
        # the order of the keys must not matter: the columns follow `spec`
        items = list(out.items())
        out = OD([items[int(i)] for i in rng.permutation(len(items))])
    return out


def nest_spec(rng, alts):
    p = [int(a) for a in rng.permutation(alts)]
    J = len(p)
    M = int(rng.randint(1, min(J, 4) + 1)) if rng.rand() < .9 else J
    if J > 2 and M == 1 and rng.rand() < .6:
        M = 2
    cuts = sorted(rng.choice(np.arange(1, J), M - 1, replace=False)) \
        if M > 1 else []
    parts = np.split(np.array(p), cuts)
    nm = ["N%d" % i for i in rng.permutation(M)]
    if rng.rand() < .3:
        nm = ["nest " + x for x in nm]
    return OD([(nm[i], [int(a) for a in parts[i]]) for i in range(M)])


def world(rng, model, est=True, identified=False, named=None, J=None, n=None,
          contiguous=True, full=None, scale=None, nmax=3, min_size=1,
          smooth=False, all_diff=True, d=None):
    """Data + specification + model configuration + reference structures."""
    if d is None:
        d = data(rng, J=J, n=n, est=est, panel=(model == "Mixed Logit"),
                 contiguous=contiguous, full=full, scale=scale,
                 min_size=min_size, smooth=smooth)
    w = dict(d)
    w["model"] = model
    outside = model in ("Asym", "Cloglog", "Scobit", "Uneven") and \
        rng.rand() < .6
    spec = specification(rng, d, identified=identified,
                         intercepts=not outside, nmax=nmax,
                         all_diff=all_diff)
    names = names_for(rng, spec, d["alts"]) if rng.rand() < .5 else None
    df = d["df"]
    if "intercept" in spec and rng.rand() < .5:
        df = df.copy()
        df["intercept"] = 1.0 if rng.rand() < .7 else 1
    w["df"] = df
    w["spec"], w["names"] = spec, names
    kw = dict(alt_id_col=d["acol"], obs_id_col=d["ocol"],
              choice_col=d["ccol"], specification=spec, model_type=model)
    if names is not None:
        kw["names"] = names
    Jn = d["J"]
    npar = dict(nests=0, shapes=0, intercepts=0, betas=0)
    if named is None:
        named = rng.rand() < .6
    w["iref"] = w["sref"] = None
    inames = snames = None
    if outside:
        w["iref"] = int(rng.randint(Jn))
        kw["intercept_ref_pos"] = w["iref"]
        npar["intercepts"] = Jn - 1
        if named:
            inames = ["ASC %d" % i for i in rng.permutation(Jn)[:Jn - 1]]
            kw["intercept_names"] = list(inames)
    if model == "Asym":
        w["sref"] = int(rng.randint(Jn))
        kw["shape_ref_pos"] = w["sref"]
        npar["shapes"] = Jn - 1
        if named:
            snames = ["shape %d" % i for i in rng.permutation(Jn)[:Jn - 1]]
            kw["shape_names"] = list(snames)
    elif model in ("Scobit", "Uneven"):
        npar["shapes"] = Jn
        if named:
            snames = ["shape %d" % i for i in rng.permutation(Jn)]
            kw["shape_names"] = list(snames)
    w["nest_spec"] = None
    nnames = None
    if model == "Nested Logit":
        ns = nest_spec(rng, d["alts"])
        kw["nest_spec"] = ns
        w["nest_spec"] = ns
        npar["nests"] = len(ns)
        nnames = list(ns)
    dfx = df if "intercept" not in spec or "intercept" in df.columns else \
        df.assign(intercept=1.0)
    X, cn = ref.design(dfx, d["acol"], spec, names)
    npar["betas"] = X.shape[1]
    w["cnames"] = list(cn)
    if model == "Mixed Logit":
        nmix = int(rng.randint(1, min(3, X.shape[1]) + 1))
        pos = [int(x) for x in rng.choice(X.shape[1], nmix, replace=False)]
        if len(set(cn)) != len(cn):
            pos = [0]
        w["mix_pos"] = pos
        kw["mixing_vars"] = [cn[p] for p in pos]
        kw["mixing_id_col"] = d["pcol"]
        npar["betas"] += len(pos)
        w["cnames"] = list(cn) + ["Sigma " + cn[p] for p in pos]
    w["npar"] = npar
    w["K"] = sum(npar.values())
    w["kw"] = kw
    w["pnames"] = (list(nnames) if nnames else []) + \
        (list(snames) if snames else
         ["Shape_%d" % (i + 1) for i in range(npar["shapes"])]) + \
        (list(inames) if inames else
         ["Outside_ASC_%d" % (i + 1) for i in range(npar["intercepts"])]) + \
        w["cnames"]
    w["named"] = bool(named)
    attach(w, dfx)
    kinds = [type(h).__name__ if not isinstance(h, str) else h[4:]
             for h in spec.values()]
    w["sig"] = "%s J%d %s %s %s %s idx:%s %s spec[%s] names:%d/%d i%s s%s n%s" \
        % (model, Jn, d["kinds"]["alt"], d["kinds"]["obs"],
           d["kinds"]["sets"], d["kinds"]["inner"] + "/" +
           d["kinds"]["order"], d["kinds"]["index"], d["kinds"]["panel"],
           ",".join(kinds), names is not None, named, w["iref"], w["sref"],
           [len(v) for v in w["nest_spec"].values()]
           if w["nest_spec"] else "-")
    return w


def attach(w, df):
    """Reference index structures of a dataset for the world's model."""
    X, _ = ref.design(df, w["acol"], w["spec"], w["names"])
    w["X"] = X
    alts = sorted(set(df[w["acol"]].tolist()))
    pos = {a: i for i, a in enumerate(alts)}
    w["alt_idx"] = np.array([pos[a] for a in df[w["acol"]].tolist()])
    w["obs_order"], w["obs_idx"] = ref.order_first(df[w["ocol"]].tolist())
    w["n_obs"] = len(w["obs_order"])
    if w["ccol"] in df.columns:
        w["choice"] = df[w["ccol"]].values.astype(float)
    if w.get("nest_spec"):
        a2n = {a: i for i, v in enumerate(w["nest_spec"].values()) for a in v}
        w["nest_idx"] = np.array([a2n[a] for a in df[w["acol"]].tolist()])
    if w.get("pcol"):
        w["mix_order"], w["mix_idx"] = ref.order_first(df[w["pcol"]].tolist())
        w["n_mix"] = len(w["mix_order"])
    return w


def on_data(w, df):
    """The same world's reference structures on other data."""
    w2 = dict(w)
    if "intercept" in w["spec"] and "intercept" not in df.columns:
        df = df.assign(intercept=1.0)
    return attach(w2, df)


def theta(rng, w, vmax=None, spread=1.0, zeros=True):
    """Random parameters with max |systematic utility| near vmax."""
    npar = w["npar"]
    if vmax is None:
        vmax = pick(rng, [.2, 1.0, 2.5, 5.0])
    parts = []
    if npar["nests"]:
        t = rng.normal(0, 1.3, npar["nests"])
        parts.append(t)
    if npar["shapes"]:
        parts.append(rng.normal(0, .7 * spread, npar["shapes"]))
    if npar["intercepts"]:
        parts.append(rng.normal(0, .8 * spread, npar["intercepts"]))
    K = w["X"].shape[1]
    b = rng.normal(0, 1, K)
    m = np.abs(w["X"].dot(b)).max()
    if m > 0:
        b = b * (vmax / m)
    if w["model"] == "Mixed Logit":
        s = rng.normal(0, 1, npar["betas"] - K)
        mx = max(1e-12, max(np.abs(w["X"][:, p] * s[k]).max()
                            for k, p in enumerate(w["mix_pos"])))
        s = s * (min(vmax, 4) / (3 * mx))
        b = np.concatenate([b, s])
    parts.append(b)
    out = np.concatenate(parts)
    if zeros and rng.rand() < .12:
        out[rng.rand(len(out)) < .4] = 0.0
    return out


def row_weights(rng, w, kind=None, scaled=False):
    """Weights constant within observation (individual for mixed logit);
    scaled: sometimes all of them tiny or huge."""
    if scaled and kind is None and rng.rand() < .08:
        wt = row_weights(rng, w, pick(rng, ["pos", "zeros", "int"]))[1]
        return "scaled", wt * pick(rng, [1e-5, 1e-3, 1e3, 1e5])
    if kind is None:
        kind = pick(rng, ["none", "pos", "zeros", "int", "wide"],
                    [.4, .25, .15, .13, .07])
    if kind == "none":
        return kind, None
    wt = _row_weights(rng, w, kind)
    form = rng.rand()
    if form < .1:
        # an array that is not contiguous in memory
        wt = np.repeat(wt, 2)[::2]
    elif form < .3 and kind == "int":
        wt = wt.astype(pick(rng, [np.int64, np.int32, np.int8]))
    return kind, wt


def _row_weights(rng, w, kind):
    idx = w["mix_idx"] if w["model"] == "Mixed Logit" else w["obs_idx"]
    m = idx.max() + 1
    if kind == "pos":
        u = rng.uniform(.1, 3, m)
    elif kind == "zeros":
        u = rng.uniform(.1, 3, m) * (rng.rand(m) < .7)
        u[0] = 1.0
    elif kind == "wide":
        u = 10 ** rng.uniform(-3, 2.5, m)
    else:
        u = rng.randint(1, 4, m).astype(float)
    return u[idx]


def build(pl, w, df=None):
    return pl.create_choice_model(data=w["df"].copy() if df is None else df,
                                  **w["kw"])


def fit(m, w, init, **kw):
    """fit_mle with model-appropriate arguments."""
    if w["model"] == "Mixed Logit":
        kw.setdefault("num_draws", w.get("R", 6))
        kw.setdefault("seed", w.get("dseed", 11))
    kw.setdefault("print_res", False)
    return m.fit_mle(np.array(init, dtype=float), **kw)


def size(rng, lo, hi):
    """A number of observations: mostly small, rarely several hundred."""
    if rng.rand() < .015:
        return int(rng.randint(270, 1100))
    return int(rng.randint(lo, hi))


def ndraws(rng, lo, hi):
    """A number of simulation draws: mostly small, sometimes large."""
    if rng.rand() < .07:
        return int(pick(rng, [51, 64, 120, 201, 520], [.24, .24, .24, .24, .04]))
    return int(rng.randint(lo, hi))


def draws_for(mlc, w, df_world=None, R=None, seed=None):
    """The draws the library makes for this world and seed."""
    ww = df_world or w
    return mlc.get_normal_draws(int(ww["n_mix"]), int(R or w.get("R", 6)),
                                len(w["mix_pos"]),
                                seed=int(seed or w.get("dseed", 11)))


def param_list(w, th):
    """theta (1D or K x C) -> predict()'s param_list."""
    n = w["npar"]
    out, k = {}, 0
    for key in ("nests", "shapes", "intercepts", "betas"):
        out[key] = th[k:k + n[key]].copy() if n[key] else None
        k += n[key]
    return [out["betas"], out["intercepts"], out["shapes"], out["nests"]]


def person(like, k):
    """Label number k for an individual, of the kind of another label."""
    return "p%d" % k if isinstance(like, str) else k


def new_data(rng, w, keep_choice=True, shuffle=True, overlap=None):
    """Fresh data for prediction with the world's model: other covariates,
    observations, row order, index; every alternative still represented.
    overlap (panel data): 'same', 'some', 'none'."""
    df = w["df"].copy()
    df.index = np.arange(len(df))
    o = df[w["ocol"]].values
    uo = pd.unique(df[w["ocol"]])
    need = set(w["alts"])
    order = list(rng.permutation(len(uo)))
    kept, have = [], set()
    few = rng.rand() < .12
    for k in order:
        s = set(df.loc[o == uo[k], w["acol"]].tolist())
        if have != need and not s <= have or \
                (not few and rng.rand() < .7):
            kept.append(uo[k])
            have |= s
    if have != need:
        kept = [uo[k] for k in order]
    if not shuffle:
        kept = sorted(kept)
    parts = [df.loc[o == x] for x in kept]
    nd = pd.concat(parts, axis=0)
    for v in w["vn"][:2]:
        x = nd[v].values.astype(float)
        nd[v] = x + rng.normal(0, .3 * (np.abs(x).max() + .1), len(x))
    mode = pick(rng, ["keep", "renum", "shift"])
    if mode != "keep":
        u = pd.unique(nd[w["ocol"]])
        new = rng.permutation(len(u)) * 3 - 7 if shuffle else np.arange(len(u))
        nd[w["ocol"]] = nd[w["ocol"]].map(dict(zip(u, new)))
    if w.get("pcol"):
        u = pd.unique(nd[w["pcol"]])
        ov = overlap or pick(rng, ["same", "some", "none"])
        newl = {}
        for k, x in enumerate(u):
            if ov == "none" or (ov == "some" and k % 2 == 0):
                newl[x] = person(x, 10 ** 5 + k)
            else:
                newl[x] = x
        nd[w["pcol"]] = nd[w["pcol"]].map(newl)
    if shuffle and rng.rand() < .6:
        nd = nd.iloc[rng.permutation(len(nd))]
    nd, _ = reindex(rng, nd)
    return nd


def utilities(w, th):
    """(systematic, transformed) utilities under the reference formulas."""
    nests, shapes, icpt, betas = ref.split(w, th)
    if w["model"] == "Mixed Logit":
        v = w["X"].dot(betas[:w["X"].shape[1]])
        return v, v
    v = w["X"].dot(betas)
    if w["model"] == "Nested Logit":
        lam = 1 / (1 + np.exp(-nests))
        return v, v / lam[w["nest_idx"]]
    return v, ref.transform(w["model"], v, shapes, icpt, w["alt_idx"],
                            w["J"], w["sref"], w["iref"])


def top_of(w, h):
    out = np.full(w["n_obs"], -np.inf)
    np.maximum.at(out, w["obs_idx"], h)
    return out


def tame(ws, th, vcap=20.0, hcap=600.0, best=False):
    """Shrink index coefficients until utilities on all given datasets are in
    the range where no overflow guard is active (best: or active only for
    alternatives of negligible probability). Returns max |v|."""
    th = np.array(th, dtype=float)
    k = ws[0]["npar"]["betas"]
    for _ in range(60):
        vs = [utilities(w, th) for w in ws]
        vm = max(np.abs(v).max() for v, _ in vs)
        hm = max(np.abs(top_of(w, h) if best else h).max()
                 for w, (_, h) in zip(ws, vs))
        if vm <= vcap and hm <= hcap:
            break
        th[-k:] *= .8
    return th, vm
