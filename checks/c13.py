from common import np, pd, pl
import gen
import c12

ID = "C13"
CASES = {"quick": 1600, "thorough": 20000}
REQUIRED = ["rows", "cells", "zero_filled", "choices", "round_trips",
            "round_trip_cells"]
RULE = ("A case is one random wide dataset (ids, choice sets, column order, "
        "index, dictionary orders, shared and missing alternative columns) "
        "converted to long, or one random long dataset converted to wide and "
        "back; every row and cell of the result is accounted for, including "
        "the row order. Distinct: kinds, dictionary orders, variables, "
        "direction.")
ASSUMPTIONS = ["integer ids; availability columns hold zeros and ones; every "
               "alternative is chosen at least once (documented requirement)"]


def wide_data(rng):
    J = int(gen.pick(rng, [2, 3, 4, 5, 7, 11, 18], [.17] * 5 + [.12, .03]))
    _, alts = gen.alt_ids(rng, J)
    n = J + gen.size(rng, 0, 12)
    _, obs = gen.obs_ids(rng, n, False)
    obs = [int(x) for x in rng.permutation(obs)]
    full = rng.rand() < .2
    av = np.ones((n, J), dtype=int) if full else \
        (rng.rand(n, J) < rng.uniform(.2, .9)).astype(int)
    ch = []
    must = list(rng.permutation(J))
    for r in range(n):
        if r < J:
            c = must[r]
        elif av[r].any():
            c = int(gen.pick(rng, list(np.nonzero(av[r])[0])))
        else:
            c = int(rng.randint(J))
        av[r, c] = 1
        ch.append(alts[c])
    p = rng.permutation(n)
    av, ch = av[p], [ch[k] for k in p]
    D = {}
    D["oid"] = obs
    ck = gen.pick(rng, ["int", "float"], [.8, .2])
    D["pick"] = np.array(ch, dtype=float if ck == "float" else int)
    avk = gen.pick(rng, ["int", "float", "bool"], [.6, .25, .15])
    tag = gen.pick(rng, ["AV_%d", "%d avail", "a%d"])
    avail = {}
    for j, a in enumerate(alts):
        c = tag % (int(rng.randint(100)) * 100 + j)
        avail[a] = c
        D[c] = av[:, j].astype({"int": int, "float": float,
                                "bool": bool}[avk])
    ind = []
    for k in range(int(rng.randint(0, 4))):
        c = "ind%d" % k
        ind.append(c)
        t = gen.pick(rng, ["int", "float", "bool", "nan"])
        v = rng.normal(size=n)
        if t == "int":
            v = rng.randint(-9, 9, n)
        elif t == "bool":
            v = rng.rand(n) < .5
        elif t == "nan":
            v[rng.rand(n) < .3] = np.nan
        D[c] = v
    asv = {}
    shared = None
    for k in range(int(rng.randint(0, 4))):
        new = "tt%d" % k
        some = [a for a in alts if rng.rand() < gen.pick(rng, [.4, 1.0])]
        if not some:
            some = [alts[0]]
        m = {}
        for a in some:
            if shared is not None and rng.rand() < .15:
                m[a] = shared
                continue
            c = "col_%d_%s" % (k, a)
            v = rng.normal(size=n) * 10.0 ** rng.randint(-3, 6)
            if rng.rand() < .3:
                v = rng.randint(-5, 50, n)
            if rng.rand() < .2:
                v = np.where(av[:, alts.index(a)] == 0, np.nan, v)
            D[c] = v
            m[a] = c
            shared = c
        asv[new] = m
    if rng.rand() < .3:
        D["unused"] = ["q"] * n
    df = pd.DataFrame(D)
    df = df[list(rng.permutation(np.array(df.columns, dtype=object)))]
    df, ik = gen.reindex(rng, df)
    return df, alts, av, avail, ind, asv, dict(index=ik, av=avk, choice=ck,
                                               J=J, full=full)


def shuffled(rng, d):
    ks = list(d)
    return {ks[int(k)]: d[ks[int(k)]] for k in rng.permutation(len(ks))}


def wide_to_long(ctx, rng):
    df, alts, av, avail, ind, asv, kinds = wide_data(rng)
    if rng.rand() < .7:
        avail = shuffled(rng, avail)
    asv = {k: shuffled(rng, v) for k, v in asv.items()}
    kw = {}
    acol = "alt_id"
    if rng.rand() < .5:
        acol = gen.pick(rng, ["mode", "alternative id"])
        kw["new_alt_id_name"] = acol
    ctx.sig("w2l", kinds, len(ind), [len(v) for v in asv.values()],
            list(avail) == sorted(avail), acol)
    ctx.sample(direction="wide to long", kinds=kinds, availability=avail,
               alt_specific=asv, ind=ind)
    long = pl.convert_wide_to_long(df.copy(), list(ind),
                                   {k: dict(v) for k, v in asv.items()},
                                   dict(avail), "oid", "pick", **kw)
    exp = []
    C = {c: df[c].tolist() for c in df.columns}
    for r in range(len(df)):
        for a in sorted(alts):
            if C[avail[a]][r] == 0:
                continue
            row = {"oid": C["oid"][r], acol: a,
                   "pick": int(C["pick"][r] == a)}
            for v in ind:
                row[v] = C[v][r]
            for v, m in asv.items():
                row[v] = C[m[a]][r] if a in m else 0.0
                if a not in m:
                    ctx.ev("zero_filled")
            exp.append(row)
    want = ["oid", acol, "pick"] + list(ind) + list(asv)
    ctx.check(sorted(long.columns) == sorted(want), "columns of the long "
              "data", got=list(long.columns), expected=want)
    ctx.check(len(long) == len(exp), "one row per available alternative",
              got=len(long), expected=len(exp))
    L = {c: long[c].tolist() for c in long.columns}
    for r, row in enumerate(exp):
        for c, v in row.items():
            ctx.check(c12.same(L[c][r], v), "cell of the long data", row=r,
                      column=c, got=L[c][r], expected=v, expected_row=row)
            ctx.ev("cells")
        ctx.ev("rows")
    ctx.ev("choices", sum(r["pick"] for r in exp))


def round_trip(ctx, rng):
    d, ind, alt = c12.long_data(rng, J=int(gen.pick(rng, [2, 3, 4, 6])))
    df = d["df"]
    whole = np.floor(df[d["ocol"]].values)      # wide ids are integers
    if not np.array_equal(whole, df[d["ocol"]].values):
        df[d["ocol"]] = whole
    if "city" in ind:
        ind.remove("city")
    oc, ac, cc_ = d["ocol"], d["acol"], d["ccol"]
    nm = c12.alt_names(rng, d)
    kw = {} if nm is None else {"alt_name_dict": nm}
    if rng.rand() < .5:
        kw["null_value"] = gen.pick(rng, [0, -1, np.nan])
    asv = [v for v in alt if rng.rand() < .7]
    sub = {v: list(d["alts"]) for v in alt if v not in asv}
    ctx.sig("round", d["kinds"], d["J"], nm is not None, len(asv), len(sub))
    ctx.sample(direction="round trip", kinds=d["kinds"], vars=alt)
    wide = pl.convert_long_to_wide(df.copy(), list(ind), list(asv), sub, oc,
                                   ac, cc_, **kw)
    lab = {a: (nm[a] if nm else a) for a in d["alts"]}
    back = pl.convert_wide_to_long(
        wide, list(ind),
        {v: {a: "%s_%s" % (v, lab[a]) for a in
             [d["alts"][int(k)] for k in rng.permutation(d["J"])]}
         for v in alt},
        {a: "availability_%s" % lab[a] for a in
         [d["alts"][int(k)] for k in rng.permutation(d["J"])]},
        oc, cc_, new_alt_id_name=ac)
    cols = [oc, ac, cc_] + ind + alt
    ctx.check(sorted(back.columns) == sorted(cols), "columns after the round "
              "trip", got=list(back.columns), expected=cols)
    orig = {}
    for r in range(len(df)):
        row = df.iloc[r]
        orig[row[oc], row[ac]] = row
    ctx.check(len(back) == len(df), "number of rows after the round trip",
              got=len(back), expected=len(df))
    seen = set()
    B = {c: back[c].tolist() for c in cols}
    for r in range(len(back)):
        key = (B[oc][r], B[ac][r])
        ctx.check(key in orig and key not in seen, "rows after the round "
                  "trip are the original ones", key=key)
        seen.add(key)
        for c in cols:
            ctx.check(c12.same(B[c][r], orig[key][c]), "round trip returns "
                      "the original datum", key=key, column=c, got=B[c][r],
                      expected=orig[key][c])
            ctx.ev("round_trip_cells")
    ctx.ev("round_trips")


def case(ctx, rng, tier, i):
    if i % 5 < 3:
        wide_to_long(ctx, rng)
    else:
        round_trip(ctx, rng)
