from collections import Counter
import scipy.special
from common import np, pd, bsamp
import gen

ID = "C14"
CASES = {"quick": 800, "thorough": 10000}
REQUIRED = ["samples", "strata", "resampled_frames", "resampled_rows",
            "frequency_tests", "repeat_tests", "within_row_tests",
            "across_row_tests", "single_sample_tests"]
RULE = ("A case is one random long dataset and one request for bootstrap "
        "samples; every sampled id is traced to an observation, stratum "
        "sizes are conserved, repeats of a seed agree, draw frequencies and "
        "coincidences within and across samples are tested (7 standard "
        "deviations), and resampled dataframes are compared row by row with "
        "the drawn observations. Distinct: data kinds, strata, number of "
        "samples.")
ASSUMPTIONS = ["numpy's generator; statistical tests use thresholds with "
               "false-alarm probability below 1e-9 per test"]


def z_ok(ctx, got, n, p, what, **kw):
    """Binomial count within 7 standard deviations."""
    sd = np.sqrt(max(n * p * (1 - p), 1e-12))
    ctx.check(abs(got - n * p) <= 7 * sd + 3, what, count=got,
              expected=n * p, sd=sd, **kw)


def frame_equal(a, b):
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    for c in a.columns:
        if a[c].dtype != b[c].dtype:
            return False
        x, y = a[c].values, b[c].values
        if x.dtype.kind == "f":
            if not np.array_equal(x, y, equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def case(ctx, rng, tier, i):
    d = gen.data(rng, est=rng.rand() < .7, contiguous=rng.rand() < .7,
                 n=gen.size(rng, 4, 30))
    df = d["df"]
    o = df[d["ocol"]].values
    a = df[d["acol"]].values
    c = df[d["ccol"]].values
    chosen = {float(oo): int(aa) for oo, aa, k in zip(o, a, c) if k == 1}
    strata = Counter(chosen.values())
    n = len(chosen)
    B = int(gen.pick(rng, [1, 2, 5, 40, 300, 1300],
                     [.2, .2, .2, .2, .17, .03]))
    seed = int(rng.randint(0, 2 ** 31 - 1)) if rng.rand() < .95 else 0
    ctx.sig(d["kinds"], sorted(strata.values()), B)
    ctx.sample(kinds=d["kinds"], strata=dict(strata), samples=B, seed=seed)
    keep = [x.copy() for x in (o, a, c)]
    S = bsamp.create_cross_sectional_bootstrap_samples(o, a, c, B, seed=seed)
    for x, y in zip(keep, (o, a, c)):
        ctx.check(np.array_equal(x, y), "input arrays untouched")
    S = np.asarray(S)
    ctx.check(S.shape == (B, n), "one id per observation and sample",
              got=S.shape, expected=(B, n))
    for r in range(B):
        ids = [float(x) for x in S[r]]
        ctx.check(all(x == y for x, y in zip(ids, S[r])) and
                  all(x in chosen for x in ids),
                  "sampled ids are observation ids", row=S[r])
        cnt = Counter(chosen[x] for x in ids)
        ctx.check(cnt == strata, "every sample keeps the number of "
                  "observations choosing each alternative",
                  got=dict(cnt), expected=dict(strata))
        ctx.ev("samples")
        ctx.ev("strata", len(cnt))
    np.random.seed(int(rng.randint(10 ** 6)))
    S2 = bsamp.create_cross_sectional_bootstrap_samples(o, a, c, B, seed=seed)
    ctx.check(np.array_equal(S, S2), "same seed gives the same samples")
    ctx.ev("repeat_tests")
    big = [k for k, v in strata.items() if v >= 2]
    # probability that an independent request coincides: prod v^-v per sample
    lp = sum(v * np.log(v) for v in strata.values()) * B
    if lp > 40:
        S3 = bsamp.create_cross_sectional_bootstrap_samples(
            o, a, c, B, seed=seed + 1)
        ctx.check(not np.array_equal(S, S3), "different seeds give different "
                  "samples")
        np.random.seed(5)
        U1 = bsamp.create_cross_sectional_bootstrap_samples(o, a, c, B)
        U2 = bsamp.create_cross_sectional_bootstrap_samples(o, a, c, B)
        ctx.check(not np.array_equal(U1, U2), "requests without a seed are "
                  "different draws")
    if B >= 40:
        lab = np.array([[chosen[float(x)] for x in row] for row in S])
        for k in big:
            v = strata[k]
            vals = np.array([row[l == k] for row, l in zip(S, lab)])
            # frequency of every member
            cn = Counter(float(x) for x in vals.ravel())
            for oo in (x for x, y in chosen.items() if y == k):
                z_ok(ctx, cn.get(oo, 0), vals.size, 1.0 / v,
                     "observations of a stratum are drawn equally often",
                     obs=oo, stratum=v, samples=B)
            ctx.ev("frequency_tests", v)
            z_ok(ctx, int((vals[:, 0] == vals[:, 1]).sum()), B, 1.0 / v,
                 "draws within a sample are independent", stratum=v)
            ctx.ev("within_row_tests")
            # coincidences between neighbouring samples, position by position
            z_ok(ctx, int((vals[1:] == vals[:-1]).sum()),
                 (B - 1) * v, 1.0 / v, "samples are independent draws",
                 stratum=v)
            ctx.ev("across_row_tests")
    # ---- single samples are draws with replacement as well
    if i % 8 == 0:
        T = 150
        hits, pairs = {}, {}
        for k in range(T):
            row = np.asarray(bsamp.create_cross_sectional_bootstrap_samples(
                o, a, c, 1, seed=seed % 10 ** 6 + k))[0]
            lb = np.array([chosen[float(x)] for x in row])
            for k2 in big:
                vals = row[lb == k2]
                v = strata[k2]
                z = len(set(vals.tolist())) < v
                hits[k2] = hits.get(k2, 0) + z
                pairs[k2] = pairs.get(k2, 0) + (vals[0] == vals[-1])
        for k2 in big:
            v = strata[k2]
            pd_ = 1 - np.exp(scipy.special.gammaln(v + 1) - v * np.log(v))
            z_ok(ctx, hits[k2], T, pd_, "single samples are drawn with "
                 "replacement", stratum=v)
            z_ok(ctx, pairs[k2], T, 1.0 / v, "draws within a single sample "
                 "are independent", stratum=v)
            ctx.ev("single_sample_tests")
    # ---- resampled dataframes
    snap = df.copy(deep=True)
    g = bsamp.create_deepcopied_groupby_dict(df, d["ocol"])
    r = int(rng.randint(B))
    bid = gen.pick(rng, [None, "boot", "bs id"])
    kw = {} if bid is None else {"boot_id_col": bid}
    bid = bid or "bootstrap_id"
    for ids in ([S[r]] + ([S[r][::-1].copy()] if rng.rand() < .3 else [])):
        bd = bsamp.create_bootstrap_dataframe(df, d["ocol"], ids, g, **kw)
        ctx.check(sorted(bd.columns) == sorted(list(df.columns) + [bid]),
                  "columns of the resampled data", got=list(bd.columns))
        k = 0
        last = None
        lst = bd[bid].tolist()
        seen = set()
        for oo in ids:
            part = snap.loc[snap[d["ocol"]].values == oo]
            sub = bd.iloc[k:k + len(part)]
            bi = set(lst[k:k + len(part)])
            ctx.check(len(bi) == 1 and not (bi & seen), "every drawn "
                      "observation gets its own new id", got=bi)
            ctx.check(last is None or list(bi)[0] > last,
                      "new ids are in draw order", got=bi, last=last)
            last = list(bi)[0]
            seen |= bi
            ctx.check(frame_equal(sub[list(part.columns)], part),
                      "resampled rows are unmodified copies", obs=oo,
                      got=sub.to_dict("list"), expected=part.to_dict("list"))
            k += len(part)
            ctx.ev("resampled_rows", len(part))
        ctx.check(k == len(bd), "no other rows", got=len(bd), expected=k)
        ctx.ev("resampled_frames")
        # the copies are independent of the originals
        for cc in d["vn"][:2]:
            bd[cc] = -99.0
    ctx.check(frame_equal(df, snap) and df.index.equals(snap.index),
              "original data untouched")
    bd = bsamp.create_bootstrap_dataframe(df, d["ocol"], S[r], g, **kw)
    part = pd.concat([snap.loc[snap[d["ocol"]].values == oo]
                      for oo in S[r]], axis=0, ignore_index=True)
    ctx.check(frame_equal(bd[list(part.columns)], part), "a second resampled "
              "dataframe from the same groups is unaffected by changes to "
              "the first")
