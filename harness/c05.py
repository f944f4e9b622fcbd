"""RCD, MultiGroupRCD and extract_ancestors refine the repetitive-discovery specification."""
import itertools
import numpy as np
from scipy import stats
from .common import *
from . import oracles as O
from .direct_or import masks


def tri(v, thr, yes, rel=1e-6):
    """three-valued comparison"""
    if abs(v - thr) <= rel * max(abs(thr), 1e-9):
        return 2
    return int(yes)


def comb(ps):
    return ps[0] if len(ps) == 1 else O.fisher(ps)[1]


def members(k, n):
    return [v for v in range(n) if k >> v & 1]


def mlhsicr(Y, i, P):
    """regression minimising the sum of HSICs, started at least squares"""
    from scipy.optimize import fmin_l_bfgs_b
    m = len(Y)

    def centred(z, w):
        K = np.exp(-(z[:, None] - z[None, :]) ** 2 / (2 * w ** 2))
        return K - K.mean(0)[None, :] - K.mean(1)[:, None] + K.mean()
    ws = [O._width(Y[:, [p]]) for p in P]
    Ls = [centred(Y[:, p], w) for p, w in zip(P, ws)]
    wi = O._width(Y[:, [i]])

    def obj(c):
        r = Y[:, i] - Y[:, P] @ c
        K = centred(r, wi - np.dot(c, ws))
        return sum(np.sum(L.T * K) / m for L in Ls)
    c = fmin_l_bfgs_b(obj, O.ols(Y[:, P], Y[:, i])[0], approx_grad=True)[0]
    return Y[:, i] - Y[:, P] @ c


def tables(Xs, o):
    n = Xs[0].shape[1]
    N = 1 << n
    R = {}
    for H in masks(n):
        hs = members(H, n)
        for j in range(n):
            if j not in hs:
                R[j, H] = [O.ols(X[:, hs], X[:, j])[1] if hs else X[:, j] for X in Xs]
    ng = [[0] * N for _ in range(n)]
    cor = [[[0] * N for _ in range(n)] for _ in range(n)]
    ind = [[[0] * N for _ in range(N)] for _ in range(n)]

    def indep(res, other):
        if o["independence"] == "hsic":
            p = comb([O.hsic(a, b, o["bw_method"])[1] for a, b in zip(res, other)])
            return p, o["ind_alpha"], p > o["ind_alpha"]
        f = max([O.f_corr(a, b) for a, b in zip(res, other)] + [0.0])
        return f, o["ind_corr"], f < o["ind_corr"]

    def all_indep(res, others, rel):
        out = 1
        for y in others:
            v, thr, yes = indep(res, y)
            t = tri(v, thr, yes, rel)
            if t == 0:
                return 0
            if t == 2:
                out = 2
        return out
    for H in masks(n):
        free = [v for v in range(n) if not H >> v & 1]
        for j in free:
            p = comb([stats.shapiro(r)[1] for r in R[j, H]])
            ng[j][H] = tri(p, o["shapiro_alpha"], p <= o["shapiro_alpha"])
        for i, j in itertools.combinations(free, 2):
            p = comb([stats.pearsonr(a, b)[1] for a, b in zip(R[i, H], R[j, H])])
            cor[i][j][H] = cor[j][i][H] = tri(p, o["cor_alpha"], p < o["cor_alpha"])
        for size in range(1, o["max_explanatory_num"] + 1):
            for U in itertools.combinations(free, size + 1):
                if any(ng[j][H] == 0 for j in U) or any(cor[a][b][H] == 0 for a, b in itertools.combinations(U, 2)):
                    continue          # the tables are never consulted there
                for i in U:
                    P = [v for v in U if v != i]
                    k = sum(1 << v for v in P)
                    Ys = [np.stack([R[v, H][g] if v in U else np.zeros(len(X)) for v in range(n)], 1) for g, X in enumerate(Xs)]
                    t = all_indep([O.ols(Y[:, P], Y[:, i])[1] for Y in Ys], [[Y[:, p] for Y in Ys] for p in P], 1e-6)
                    if t != 1 and len(P) > 1 and o["MLHSICR"]:
                        t2 = all_indep([mlhsicr(Y, i, P) for Y in Ys], [[Y[:, p] for Y in Ys] for p in P], .08)
                        t = 2 if 2 in (t, t2) and 1 not in (t, t2) else max(t, t2) if 2 not in (t, t2) else 1 if t2 == 1 else 2
                    ind[i][k][H] = t
    return ng, cor, ind


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    from lingam.utils import extract_ancestors
    kind = ["RCD", "RCD", "MultiGroupRCD", "extract_ancestors"][int(rng.integers(4))]
    n = int(rng.choice([2, 3, 3, 4, 4]))
    wild = rng.random() < .6
    if wild:
        n = int(rng.choice([3, 4, 5]))
    G = int(rng.integers(2, 4)) if kind == "MultiGroupRCD" else 1
    Xs = []
    base, B = None, None
    st = rng.integers(1 << 30)
    for g in range(G):
        r2 = np.random.default_rng(st)           # same structure in all groups
        p = r2.permutation(n)
        B = np.tril(r2.uniform(.5, 1.5, (n, n)) * r2.choice([-1, 1], (n, n)) * (r2.random((n, n)) < r2.choice([.4, .7, 1])), -1)[np.ix_(p, p)]
        m = int(rng.integers(12, 50)) if wild else int(rng.integers(40, 200))
        E = rng.standard_normal((m, n))
        how = r2.integers(0, 6, n)
        for j in range(n):
            E[:, j] = [rng.exponential(1, m), rng.uniform(-1, 1, m), rng.laplace(0, 1, m), rng.exponential(1, m), np.sign(E[:, j]) * np.abs(E[:, j]) ** 3, E[:, j]][how[j]]
        for _ in range(int(r2.integers(0, 2))):
            a, b = r2.choice(n, 2, replace=False)
            L = rng.exponential(1, m)
            E[:, a] += 1.5 * L
            E[:, b] -= 1.2 * L
        X = np.linalg.solve(np.eye(n) - B, E.T).T * r2.uniform(.3, 4, n) + r2.uniform(-3, 3, n)
        Xs.append(X)
    o = {"max_explanatory_num": int(rng.integers(1, 4)), "cor_alpha": float(rng.choice([.01, .05, .2])),
         "ind_alpha": float(rng.choice([.001, .01, .1])), "shapiro_alpha": float(rng.choice([.01, .1, .6])),
         "MLHSICR": bool(rng.random() < .25), "bw_method": str(rng.choice(["mdbs", "mdbs", "scott", "silverman"]))}
    if wild:      # levels at which the tests answer almost at random: rich search histories
        o.update(cor_alpha=float(rng.choice([.3, .8, .99])), shapiro_alpha=float(rng.choice([.5, 1.0])),
                 ind_alpha=float(rng.choice([.05, .2, .5, .8])), max_explanatory_num=int(rng.integers(2, 4)))
    o["independence"], o["ind_corr"] = "hsic", .5
    if kind != "extract_ancestors" and rng.random() < .3:
        o["independence"], o["ind_corr"] = "fcorr", float(rng.choice([.2, .4, .6]))
    r = {"n": n, "lmax": o["max_explanatory_num"], "kind": kind, "opts": {k: str(v) for k, v in o.items()}, "m": [len(X) for X in Xs],
         "anc": [], "nz": [], "nan": [], "par": [], "conf": [], "rowok": [], "graph": 0, "seed": list(seed)}
    r["ng"], r["cor"], r["ind"] = tables(Xs, o)
    if kind == "extract_ancestors":
        a = dict(o)
        del a["independence"], a["ind_corr"]
        res = observe(lambda: extract_ancestors(Xs[0].copy(), **a))
    elif kind == "RCD":
        res = observe(lambda: lingam.RCD(**o).fit(Xs[0].copy()))
    else:
        res = observe(lambda: lingam.MultiGroupRCD(**o).fit([X.copy() for X in Xs]))
    if res[0] == "err":
        r["out"], r["msg"] = res[1], res[2]
        return r
    try:
        r["out"] = "ok"
        anc = res[1] if kind == "extract_ancestors" else res[1].ancestors_list_
        anc = [sorted(int(v) for v in s) for s in anc]
        r["anc"] = [[v + 1 for v in s] for s in anc]
        if kind == "extract_ancestors":
            return r
        r["graph"] = 1
        mats = [res[1].adjacency_matrix_] if kind == "RCD" else list(res[1].adjacency_matrices_)
        mats = [np.asarray(A, float).reshape(n, n) for A in mats]
        if len(mats) != G:
            r["out"] = "wrong-number-of-graphs"
            return r
        r["nz"] = [(np.nan_to_num(A) != 0).astype(int).tolist() for A in mats]
        r["nan"] = [np.isnan(A).astype(int).tolist() for A in mats]
        rs = lambda X, j, S: O.ols(X[:, sorted(S)], X[:, j])[1] if S else X[:, j]

        def corr(i, Si, j, Sj):
            p = comb([stats.pearsonr(rs(X, i, Si), rs(X, j, Sj))[1] for X in Xs])
            return tri(p, o["cor_alpha"], p < o["cor_alpha"])
        S = [set(s) for s in anc]
        r["par"] = [[corr(i, S[i] - {j}, j, (S[i] & S[j])) if j in S[i] and i not in S[i] and j not in S[j] else 0 for j in range(n)] for i in range(n)]
        P = [set(int(v) for v in np.where(np.nan_to_num(mats[0][i]) != 0)[0]) for i in range(n)]
        r["conf"] = [[corr(i, P[i], j, P[j]) if i != j and i not in P[j] and j not in P[i] else 0 for j in range(n)] for i in range(n)]
        for A, X in zip(mats, Xs):
            ok = []
            for i in range(n):
                ps = [int(v) for v in np.where(np.nan_to_num(A[i]) != 0)[0]]
                ref = O.ols(X[:, ps], X[:, i])[0] if ps else np.zeros(0)
                ok.append(int(np.allclose(A[i, ps], ref, rtol=1e-6, atol=1e-9)))
            r["rowok"].append(ok)
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
        r["msg"] = str(e)[:200]
    return r


def check(ctx):
    ctx.design("MCRCD", "CONSTANTS N = 3\nLMAX = 2\nSPECIFICATION Spec\nINVARIANTS NoSelf Antisymmetric CommonOutside\nPROPERTIES Grows Terminates\n", name="MCRCD")
    if ctx.thorough:
        ctx.design("MCRCD", "CONSTANTS N = 4\nLMAX = 1\nSPECIFICATION Spec\nINVARIANTS NoSelf Antisymmetric CommonOutside\nPROPERTIES Grows\n", name="MCRCD4")
    traces = pmap(one, [(ctx.seed, 5, i) for i in range(ctx.n(1500, 7000))], chunk=4)
    ctx.judge("RCDTrace", "SPECIFICATION Spec\n", traces, "repetitive-discovery",
              describe=lambda t: {k: t[k] for k in ("kind", "opts", "anc", "nz", "nan", "out", "seed")})
    for t in traces[:2]:
        ctx.sample({k: t[k] for k in ("kind", "n", "m", "opts", "anc", "nz", "nan", "out")})
    ctx.cover["kinds"] = {k: sum(t["kind"] == k for t in traces) for k in set(t["kind"] for t in traces)}
    ctx.cover["with_ancestors"] = sum(any(t["anc"]) for t in traces)
    ctx.cover["with_unknown_pairs"] = sum(bool(t["nan"]) and any(any(r) for r in t["nan"][0]) for t in traces)
    ctx.cover["rule"] = "random structures with and without latent confounders, mixed noise, 2..4 variables, 1..3 groups, all options"
    ctx.assumptions.append("decisions whose p-value is within 1e-6 (8% after the MLHSICR optimiser) of its threshold are accepted either way")
