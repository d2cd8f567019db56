import scipy.stats
from common import np, pd, pl, boot, bcalc, quiet
import gen

ID = "C16"
CASES = {"quick": 2400, "thorough": 30000}
REQUIRED = ["percentile_endpoints", "bca_endpoints", "object_tables",
            "tied_replicates", "nonzero_acceleration"]
RULE = ("A case is one random set of replicates, jackknife replicates, "
        "estimates and confidence level (symmetric, skewed, tied, tiny "
        "samples, very different scales per parameter); endpoints from the "
        "functions and from the bootstrap object are compared with order "
        "statistics picked by an independent implementation; labels and "
        "ordering are checked. Distinct: shapes, sizes, levels.")
ASSUMPTIONS = ["estimates lie strictly inside the range of the replicates "
               "(the bias correction is finite) and the BCa denominators "
               "are positive",
               "levels that hit an order statistic exactly up to rounding "
               "may select either neighbour"]
N = scipy.stats.norm


def pick(sorted_col, level, upper):
    """Acceptable order statistics for a level in percent."""
    B = len(sorted_col)
    x = level / 100.0 * (B - 1)
    k = int(np.ceil(x)) if upper else int(np.floor(x))
    ok = {min(max(k, 0), B - 1)}
    if abs(x - round(x)) < 1e-7:
        ok.add(min(max(int(round(x)), 0), B - 1))
        ok.add(min(max(int(round(x)) + (1 if upper else -1), 0), B - 1))
    return [sorted_col[j] for j in ok]


def bca_levels(reps, jack, est, conf):
    al = (100.0 - conf) / 100.0
    out = []
    for k in range(reps.shape[1]):
        p = sum(1 for v in reps[:, k] if v < est[k]) / float(len(reps))
        z0 = N.ppf(p)
        d = np.mean(jack[:, k]) - jack[:, k]
        s2 = float(np.sum(d * d))
        a = float(np.sum(d ** 3)) / (6 * s2 ** 1.5) if s2 > 0 else 0.0
        lv = []
        for z in (N.ppf(al / 2), N.ppf(1 - al / 2)):
            den = 1 - a * (z0 + z)
            lv.append(100 * N.cdf(z0 + (z0 + z) / den) if den > 1e-3
                      else None)
        out.append((lv[0], lv[1], a))
    return out


def draw(rng, n, K):
    X = np.empty((n, K))
    tied = False
    for k in range(K):
        t = gen.pick(rng, ["norm", "skew", "unif", "tied", "heavy"])
        v = {"norm": lambda: rng.normal(size=n),
             "skew": lambda: rng.exponential(size=n),
             "unif": lambda: rng.rand(n),
             "tied": lambda: rng.randint(0, max(2, n // 3), n) * 1.0,
             "heavy": lambda: rng.standard_t(2, n)}[t]()
        tied |= t == "tied"
        X[:, k] = v * 10.0 ** rng.randint(-4, 5) + rng.normal() * \
            10.0 ** rng.randint(-2, 3)
    return X, tied


def case(ctx, rng, tier, i):
    K = int(gen.pick(rng, [1, 2, 3, 5]))
    B = int(gen.pick(rng, [2, 3, 10, 41, 100, 201, 400, 1300, 5000],
                     [.14] * 6 + [.1, .04, .02]))
    nj = int(gen.pick(rng, [2, 5, 20, 60, 700], [.24] * 4 + [.04]))
    reps, tied = draw(rng, B, K)
    jack, _ = draw(rng, nj, K)
    if rng.rand() < .15:
        # constant (whole numbers, so that the mean is exact): a = 0
        jack = np.repeat(np.round(jack[:1]), nj, axis=0)
    conf = gen.pick(rng, [95, 90, 99, 80.0, 50, 99.9, 99.98,
                          round(float(rng.uniform(5, 99.5)), 2)])
    # estimates strictly inside the range
    est = np.empty(K)
    for k in range(K):
        s = np.sort(reps[:, k])
        if s[0] == s[-1]:
            reps[0, k] -= 1.0
            s = np.sort(reps[:, k])
        if rng.rand() < .3:
            j = int(rng.randint(1, B))
            est[k] = s[j] if s[j] > s[0] else .5 * (s[0] + s[-1])
        else:
            est[k] = s[0] + (s[-1] - s[0]) * rng.uniform(.02, .98)
        if not (reps[:, k] < est[k]).any() or (reps[:, k] < est[k]).all():
            est[k] = .5 * (s[0] + s[-1])
    perm = rng.permutation(B)
    reps = reps[perm]
    ctx.sig(K, B, nj, conf, tied, i % 2)
    ctx.sample(K=K, B=B, jackknife=nj, conf=conf)
    snap = reps.copy(), jack.copy(), est.copy()
    al = 100.0 - conf

    def check(tab, levels, what, key):
        tab = np.asarray(tab, dtype=float)
        ctx.check(tab.shape == (2, K), what + ": shape", got=tab.shape)
        for k in range(K):
            s = np.sort(reps[:, k])
            lo, hi = levels[k][0], levels[k][1]
            if lo is not None:
                ok = pick(s, lo, False)
                ctx.check(any(tab[0, k] == v for v in ok),
                          what + ": lower endpoint", param=k,
                          got=tab[0, k], acceptable=ok, level=lo)
                ctx.ev(key)
            if hi is not None:
                ok = pick(s, hi, True)
                ctx.check(any(tab[1, k] == v for v in ok),
                          what + ": upper endpoint", param=k,
                          got=tab[1, k], acceptable=ok, level=hi)
                ctx.ev(key)
            if lo is not None and hi is not None:
                ctx.check(tab[0, k] <= tab[1, k], what + ": ordered",
                          got=tab[:, k])
    plv = [(al / 2, 100 - al / 2)] * K
    blv = bca_levels(reps, jack, est, conf)
    if any(x[2] != 0 for x in blv):
        ctx.ev("nonzero_acceleration")
    if tied:
        ctx.ev("tied_replicates")
    if i % 2 == 0:
        check(bcalc.calc_percentile_interval(reps, conf), plv,
              "percentile interval", "percentile_endpoints")
        check(bcalc.calc_bca_interval(reps, jack, est, conf), blv,
              "BCa interval", "bca_endpoints")
    else:
        names = ["p%d" % k for k in rng.permutation(K)]
        R = 2 * K + 4
        df = pd.DataFrame({"o": np.repeat(np.arange(R // 2), 2),
                           "a": np.tile([1, 2], R // 2),
                           "c": np.tile([1, 0, 0, 1], R)[:2 * (R // 2)]})
        spec = gen.OD()
        nm = gen.OD()
        for k in range(K):
            df["x%d" % k] = rng.normal(size=len(df))
            spec["x%d" % k] = "all_same"
            nm["x%d" % k] = names[k]
        m = pl.create_choice_model(data=df, alt_id_col="a", obs_id_col="o",
                                   choice_col="c", specification=spec,
                                   model_type="MNL", names=nm)
        b = boot.Boot(m, est.copy())
        b.bootstrap_replicates = pd.DataFrame(reps.copy(), columns=names)
        b.jackknife_replicates = pd.DataFrame(jack.copy(), columns=names)
        how = gen.pick(rng, ["pi", "bca", "each"])
        with quiet():
            if how == "each":
                b.calc_percentile_interval(conf)
                b.calc_bca_interval(conf)
            else:
                b.calc_conf_intervals(conf, interval_type=how)
        for attr, lv, key, want in (
                ("percentile_interval", plv, "percentile_endpoints",
                 how in ("pi", "each")),
                ("bca_interval", blv, "bca_endpoints",
                 how in ("bca", "each"))):
            t = getattr(b, attr)
            if not want:
                ctx.check(t is None, attr + " not computed", got=t)
                continue
            ctx.check(list(t.index) == names, attr + ": labelled with the "
                      "parameter names", got=list(t.index))
            lab = [float(str(c).rstrip("%")) for c in t.columns]
            ctx.check(len(lab) == 2 and all(
                abs(g - e) <= 5.1e-3 * e for g, e in
                zip(lab, (al / 2, 100 - al / 2))), attr + ": labelled with "
                "its level", got=list(t.columns), conf=conf)
            check(t.values.T, lv, attr, key)
            ctx.ev("object_tables")
    for x, y in zip(snap, (reps, jack, est)):
        ctx.check(np.array_equal(x, y), "inputs untouched")
