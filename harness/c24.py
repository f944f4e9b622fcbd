"""HighDimDirectLiNGAM: the peeling of roots refines the specification."""
import warnings
import numpy as np
from .common import *
from . import oracles as O
from .c16 import lin


def sparse_rows(X, order, B):
    """rowok[k][p]: row of order[k] is the sparse regression on order[:p]"""
    m, n = X.shape
    res = []
    for k, t in enumerate(order):
        row = []
        for p in range(n):
            if p > k:
                row.append(0)
                continue
            P = list(order[:p])
            ref = np.zeros(n)
            if P:
                ref[P] = O.adaptive_lasso(X, P, t) if m > n else lasso_cv(X, P, t)
            sc = np.std(X[:, t]) / np.std(X, axis=0)
            row.append(int(np.all(np.abs(B[t] - ref) <= 1e-6 * np.abs(ref) + 1e-9 * sc) and np.array_equal(B[t] != 0, ref != 0)))
        res.append(row)
    return res


def lasso_cv(X, P, t):
    from sklearn.linear_model import LassoLarsCV
    Z = (X - X.mean(0)) / X.std(0)
    w = np.abs(O.ols(Z[:, P], Z[:, t])[0])
    sup = np.abs(LassoLarsCV().fit(Z[:, P] * w, Z[:, t]).coef_ * w) > 0
    c = np.zeros(len(P))
    if sup.any():
        c[sup] = O.ols(X[:, np.array(P)[sup]], X[:, t])[0]
    return c


def one(seed):
    import lingam
    rng = np.random.default_rng(seed)
    n = int(rng.integers(2, 8))
    few = n == 7 and rng.random() < .3
    m = int(rng.integers(6, 8)) if few else int(rng.integers(n + 1, 120))
    few = m <= n
    X = lin(rng, m, n, ["uniform", "laplace"][int(rng.integers(2))])
    if rng.random() < .3:
        X = X * rng.choice([.5, 1, 3], n)
    J = int(rng.choice([3, 3, 4]))
    K = int(rng.choice([1, 3, 4, 4, 5]))
    al = float(rng.choice([0, .1, .5, .9, 1]))
    adj = bool(rng.random() < .8) or few
    r = {"seed": list(seed), "n": n, "m": m, "J": J, "K": K, "alpha": al, "mat": int(adj), "few": int(few and adj), "order": [], "rowok": [], "has": 0, "warned": 0}
    # dependences and their ranks
    vals = np.full((n, 2 ** n, n), np.nan)
    for v in range(n):
        for k in range(2 ** n):
            C = [c for c in range(n) if k >> c & 1]
            if v in C or len(C) > J:
                continue
            y = X[:, v] - (X[:, C] @ O.ols_nc(X[:, C], X[:, v]) if C else 0)
            vals[v, k] = np.abs((y ** (K - 1)) @ X / m * np.mean(y ** 2) - np.mean(y ** K) * (y @ X) / m)
            vals[v, k, v] = np.nan
    have = ~np.isnan(vals)
    t = vals[have]
    top = t.max()
    pool = np.unique(np.concatenate([t, al * t, [0., 1e5, al * 1e5]]))
    gap = np.diff(pool)
    # the same value computed in another way may differ in the last digits: such tables are not judged
    if np.any((gap > 0) & (gap < 1e-9 * pool[1:])) or (t < 1e-10 * top).any():
        r["skip"] = [int(((gap > 0) & (gap < 1e-9 * pool[1:])).sum()), int((t < 1e-10 * top).sum())]
        return r
    rank = lambda x: np.searchsorted(pool, x)
    tab = np.zeros(vals.shape, int)
    tab[have] = rank(t)
    r["tau"] = [[tab[v, k].tolist() if have[v, k].any() else [] for k in range(2 ** n)] for v in range(n)]
    up = np.zeros(len(pool) + 1, int)
    base = np.unique(np.concatenate([t, [0., 1e5]]))
    up[rank(base)] = rank(al * base)
    r["up"], r["big"] = up.tolist(), int(rank(1e5))

    def fit():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            M = lingam.HighDimDirectLiNGAM(J=J, K=K, alpha=al, estimate_adj_mat=adj).fit(X.copy())
        r["warned"] = int(any("n_samples" in str(x.message) for x in w))
        return M
    o = observe(fit)
    r["out"] = "ok" if o[0] == "ok" else o[1]
    if o[0] == "ok":
        M = o[1]
        try:
            r["order"] = [int(v) + 1 for v in M.causal_order_]
            B = M.adjacency_matrix_
            r["has"] = int(B is not None)
            if adj:
                r["rowok"] = sparse_rows(X, [v - 1 for v in r["order"]], np.asarray(B, float))
        except Exception as e:
            r["out"] = "malformed-" + type(e).__name__
    else:
        r["msg"] = o[2]
    return r


def check(ctx):
    ctx.design("MCHighDim", "CONSTANTS N = 5\nJJ = 2\nSALTS = 3\nSPECIFICATION Spec\nINVARIANTS Distinct SameOrder SameStats SameChoices\nPROPERTIES Monotone Terminates\n")
    ctx.design("MCHighDim", "CONSTANTS N = 4\nJJ = 3\nSALTS = 25\nSPECIFICATION Spec\nINVARIANTS Distinct SameOrder SameStats SameChoices\nPROPERTIES Monotone\n", name="MCHighDim4")
    traces = pmap(one, [(ctx.seed, 24, i) for i in range(ctx.n(400, 3000))], chunk=4)
    kept = [t for t in traces if not t.get("skip")]
    ctx.cover["not_judged_near_ties"] = len(traces) - len(kept)
    for k in range(0, len(kept), 500):
        ctx.judge("HighDimTrace", "SPECIFICATION Spec\n", kept[k:k + 500], "high-dim", describe=lambda t: {k: t[k] for k in ("seed", "n", "m", "J", "K", "alpha", "order", "out")})
    for t in kept:
        for k in ("n%d" % t["n"], "J%d" % t["J"], "few%d" % t["few"], t["out"]):
            ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.sample({k: kept[0][k] for k in ("n", "m", "J", "K", "alpha", "order", "out")})
