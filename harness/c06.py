"""CAMUV and MultiGroupCAMUV refine the CAM-UV specification."""
import itertools
import numpy as np
from .common import *
from . import oracles as O
from .c05 import members

SC = 10 ** 9


def gam_resid(X, i, S):
    from pygam import LinearGAM
    if not S:
        return X[:, i]
    return X[:, i] - LinearGAM().fit(X[:, S], X[:, i]).predict(X[:, S])


def value(a, b, indep):
    """independence value over groups, larger = more independent, in 0..1e9"""
    if indep == "hsic":
        ps = [O.hsic(x, y)[1] for x, y in zip(a, b)]
        v = ps[0] if len(ps) == 1 else O.fisher(ps)[1]
        return int(v * SC)
    f = max([0.0] + [O.f_corr(x, c) for x, y in zip(a, b) for c in np.asarray(y).reshape(len(y), -1).T])
    return int(SC * (2 - f) / 2)


def subsets(xs):
    return itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))


def bits(S):
    return sum(1 << v for v in S)


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    multi = rng.random() < .4
    n = int(rng.choice([2, 3, 3, 4]))
    G = int(rng.integers(2, 4)) if multi else 1
    wild = rng.random() < .5
    st = int(rng.integers(1 << 30))
    Xs = []
    for g in range(G):
        r2 = np.random.default_rng(st)
        m = int(rng.integers(25, 45)) if wild else int(rng.integers(60, 130))
        p = r2.permutation(n)
        X = np.zeros((m, n))
        lat = rng.uniform(-1, 1, m)
        who = r2.choice(n, 2, replace=False) if r2.random() < .4 else []
        for k, i in enumerate(p):
            x = [rng.uniform(-1, 1, m), rng.exponential(1, m), rng.standard_normal(m)][r2.integers(3)]
            for j in p[:k]:
                c = r2.random()
                if c < .65:
                    z = X[:, j] / (X[:, j].std() + 1e-9)
                    x = x + [1.2 * z, z ** 2, 2 * np.sin(2 * z), -1.5 * z][r2.integers(4)]
            if i in who:
                x = x + 2 * lat ** 2 + lat
            X[:, i] = x
        Xs.append(X * r2.uniform(.5, 3, n) + r2.uniform(-2, 2, n))
    joint = not multi and rng.random() < .75
    if joint:      # several latent causes: sets of three or four matter and answers are mixed
        n, m = 4, int(rng.integers(15, 60))
        if rng.random() < .3:
            lat = rng.uniform(-2, 2, m)
            a, b = lat + .8 * rng.uniform(-1, 1, m), lat ** 2 / 2 + lat + .8 * rng.uniform(-1, 1, m)
            y = a + b + .5 * rng.uniform(-1, 1, m)
            X = np.stack([a, b, y, y + rng.uniform(-2, 2, m)], 1)
        else:
            L = rng.standard_normal((m, 3))
            X = np.tanh(L @ rng.standard_normal((3, 4))) + .3 * rng.standard_normal((m, 4)) + .5 * (L ** 2) @ rng.standard_normal((3, 4))
        Xs = [X[:, rng.permutation(n)]]
    indep = "hsic" if rng.random() < .65 else "fcorr"
    alpha = float(rng.choice([.01, .05, .2])) if not wild else float(rng.choice([.05, .2, .4, .7]))
    corr = float(rng.choice([.25, .4, .5, .65]))
    if joint:
        alpha, corr = float(rng.choice([.3, .5, .6, .7, .8, .9])), float(rng.choice([.1, .15, .2, .25, .3]))
    tmax = int(rng.choice([3, 4])) if joint else int(rng.choice([1, 2, 3, 4]))
    ban = []
    if rng.random() < (.1 if joint else .4):
        ban = [(int(a), int(b)) for a in range(n) for b in range(n) if a != b and rng.random() < .25]
    kw = {"alpha": alpha, "num_explanatory_vals": tmax, "independence": indep, "ind_corr": corr}
    if ban or rng.random() < .3:
        kw["prior_knowledge"] = list(ban)
    thr = alpha * SC if indep == "hsic" else SC * (2 - corr) / 2
    r = {"n": n, "tmax": tmax, "ban": [[a + 1, b + 1] for a, b in ban], "lo": int(thr - 1000), "hi": int(thr + 1000), "tol": 2000,
         "pair": {"none": 0}, "with": {"none": 0}, "adj": [], "sure": 1, "seed": list(seed), "multi": int(multi),
         "opts": {k: str(v) for k, v in kw.items()}, "m": [len(X) for X in Xs]}
    res = observe(lambda: (lingam.MultiGroupCAMUV(**kw).fit([X.copy() for X in Xs]) if multi
                           else lingam.CAMUV(**kw).fit(Xs[0].copy())))
    near = [[0] * n for _ in range(n)]
    R = {}
    for i in range(n):
        for S in subsets([v for v in range(n) if v != i]):
            R[i, S] = [gam_resid(X, i, list(S)) for X in Xs]
    for i, j in itertools.combinations(range(n), 2):
        oth = [v for v in range(n) if v not in (i, j)]
        for S in subsets(oth):
            for Q in subsets(oth):
                r["pair"]["%d:%d|%d:%d" % (i + 1, bits(S), j + 1, bits(Q))] = value(R[i, S], R[j, Q], indep)
        v = r["pair"]["%d:0|%d:0" % (i + 1, j + 1)]
        if r["lo"] <= v <= r["hi"]:
            r["sure"] = 0
        near[i][j] = near[j][i] = int(v < r["lo"])
    r["near"] = near
    for t in range(2, max(2, tmax) + 1):
        for U in itertools.combinations(range(n), t):
            oth = [v for v in range(n) if v not in U]
            for c in U:
                ps = [v for v in U if v != c]
                if any(near[c][v] == 0 for v in ps) or any((v, c) in ban for v in ps):
                    continue
                for Pc in subsets(oth):
                    for Qs in itertools.product(*[list(subsets(oth)) for _ in ps]):
                        a = R[c, tuple(sorted(ps + list(Pc)))]
                        b = [np.stack([R[q, Q][g] for q, Q in zip(ps, Qs)], 1) for g in range(G)]
                        key = "%d:%d|" % (c + 1, bits(ps) + bits(Pc)) + "".join(
                            "%d:%d;" % (q + 1, bits(Q)) for q, Q in sorted(zip(ps, Qs), reverse=True))
                        r["with"][key] = value(a, b, indep)
    if res[0] == "err":
        r["out"], r["msg"] = res[1], res[2]
        return r
    try:
        A = np.asarray(res[1].adjacency_matrix_, float).reshape(n, n)
        r["out"] = "ok"
        r["adj"] = [[NAN if np.isnan(v) else int(v) if v == int(v) else 7 for v in row] for row in A]
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
    return r


def check(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS NoSelf Antisymmetric BanRespected OnlyDependent\nPROPERTY Terminates\n"
    ctx.design("MCCAMUV", "CONSTANTS N = 3\nTMAX = 3\nBAN = %d\n" % ctx.n(1, 6) + inv)
    if ctx.thorough:
        ctx.design("MCCAMUV", "CONSTANTS N = 4\nTMAX = 2\nBAN = 0\n" + inv.replace("PROPERTY Terminates\n", ""), name="MCCAMUV4")
    traces = pmap(one, [(ctx.seed, 6, i) for i in range(ctx.n(1200, 6000))], chunk=2)
    ctx.judge("CAMUVTrace", "SPECIFICATION Spec\n", traces, "cam-uv",
              describe=lambda t: {k: t[k] for k in ("multi", "opts", "adj", "near", "ban", "out", "seed")})
    for t in traces[:2]:
        ctx.sample({k: t[k] for k in ("multi", "n", "m", "opts", "adj", "near", "out")})
    ctx.cover["multi_group"] = sum(t["multi"] for t in traces)
    ctx.cover["with_edges"] = sum(any(1 in r for r in t["adj"]) for t in traces)
    ctx.cover["with_unknown_pairs"] = sum(any(NAN in r for r in t["adj"]) for t in traces)
    ctx.cover["rule"] = "random additive models with and without latent variables, 2..4 variables, 1..3 groups, all options"
    ctx.assumptions.append("independence values within 1e-6 of the threshold or of each other are accepted either way; pyGAM is trusted")
