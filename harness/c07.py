"""RESIT refines its specification."""
import numpy as np
from .common import *
from . import oracles as O
from .direct_or import masks
from .c05 import tri, members


class Poly:
    """a deterministic non-linear regressor (ridge on powers), with the scikit-learn interface"""

    def __init__(self, deg=2):
        self.deg = deg

    def _phi(self, X):
        X = np.asarray(X, float)
        return np.hstack([X ** d for d in range(1, self.deg + 1)])

    def fit(self, X, y):
        F = self._phi(X)
        self.mu, self.b = F.mean(0), np.mean(y)
        self.sd = F.std(0) + 1e-12
        Z = (F - self.mu) / self.sd
        self.w = np.linalg.solve(Z.T @ Z + .1 * np.eye(Z.shape[1]), Z.T @ (np.asarray(y) - self.b))
        return self

    def predict(self, X):
        return ((self._phi(X) - self.mu) / self.sd) @ self.w + self.b


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    n = int(rng.choice([1, 2, 3, 3, 4, 4, 5]))
    m = int(rng.integers(25, 110))
    if seed[-1] % 15 == 4:
        n, m = int(rng.integers(6, 8)), int(rng.integers(25, 50))
    p = rng.permutation(n)
    X = np.zeros((m, n))
    for k, i in enumerate(p):
        x = rng.uniform(-1, 1, m) if rng.random() < .5 else rng.standard_normal(m)
        for j in p[:k]:
            if rng.random() < .6:
                z = X[:, j]
                x = x + [z, z ** 2, np.sin(2 * z) * 2, -1.5 * z][rng.integers(4)]
        X[:, i] = x
    X = X * rng.uniform(.5, 3, n) + rng.uniform(-2, 2, n)
    deg = int(rng.integers(1, 4))
    alpha = float(rng.choice([0.0, .01, .05, .2, .5, .8]))
    res = observe(lambda: lingam.RESIT(regressor=Poly(deg), alpha=alpha).fit(X.copy()))
    N = 1 << n
    dep = [[0] * N for _ in range(n)]
    ind = [[0] * N for _ in range(n)]
    for v in range(n):
        for P in masks(n):
            ps = members(P, n)
            if v in ps or not ps:
                continue
            r = X[:, v] - Poly(deg).fit(X[:, ps], X[:, v]).predict(X[:, ps])
            s, pv = O.hsic(r, X[:, ps])
            dep[v][P] = int(min(s * 1e7, 2e9))
            ind[v][P] = tri(pv, alpha, pv > alpha)
            if pv == 0 and alpha == 0:
                ind[v][P] = 2
    r = {"n": n, "m": m, "alpha": str(alpha), "deg": deg, "dep": dep, "ind": ind, "tol": 3, "order": [], "adj": [], "seed": list(seed)}
    if res[0] == "err":
        r["out"], r["msg"] = res[1], res[2]
        return r
    try:
        r["out"] = "ok"
        r["order"] = [int(v) + 1 for v in res[1].causal_order_]
        A = np.asarray(res[1].adjacency_matrix_, float).reshape(n, n)
        r["adj"] = imat(A) or [[7] * n] * n
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
    return r


def check(ctx):
    ctx.design("MCRESIT", "CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANTS Permutation ParentsPrecede OneLeft\nPROPERTY Terminates\n" % ctx.n(4, 5))
    traces = pmap(one, [(ctx.seed, 7, i) for i in range(ctx.n(3000, 12000))], chunk=8)
    ctx.judge("RESITTrace", "SPECIFICATION Spec\n", traces, "resit",
              describe=lambda t: {k: t[k] for k in ("order", "adj", "alpha", "deg", "out", "seed")})
    for t in traces[:2]:
        ctx.sample({k: t[k] for k in ("n", "m", "alpha", "deg", "order", "adj", "out")})
    ctx.cover["pruned"] = sum(sum(map(sum, t["adj"])) < t["n"] * (t["n"] - 1) / 2 for t in traces if t["adj"])
    ctx.cover["rule"] = "random additive models of 1..5 variables, three regressors, levels 0..0.8"
