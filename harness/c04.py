"""BottomUpParceLiNGAM refines the bottom-up search specification."""
import numpy as np
from .common import *
from . import oracles as O
from .direct_or import *

BIG = 2000000000


class Shrink:
    """a user-supplied regressor that is not least squares"""

    def fit(self, X, y):
        self.c, _, self.b = O.ols(X, y)
        return self

    def predict(self, X):
        return 0.6 * (np.asarray(X) @ self.c) + self.b


def near(v, t):
    return abs(v - t) <= 1e-7 * max(abs(t), 1e-12)


def sink_tables(X, indep, level, reg):
    n = X.shape[1]
    Z = X - X.mean(0)
    dep = [[0] * (1 << n) for _ in range(n)]
    rej = [[0] * (1 << n) for _ in range(n)]
    raw = {}
    for j in range(n):
        for k in masks(n):
            P = [v for v in range(n) if k >> v & 1]
            if not P or j in P:
                continue
            if reg is None:
                c = O.ols(Z[:, P], Z[:, j])[0]
                R = Z[:, j] - Z[:, P] @ c
            else:
                r = Shrink().fit(Z[:, P], Z[:, j])
                R = Z[:, j] - r.predict(Z[:, P])
            if indep == "hsic":
                tests = [O.hsic(Z[:, v], R) for v in P]
                if len(P) == 1:
                    s, p = tests[0]
                else:
                    s, p = O.fisher([t[1] for t in tests])
                rej[j][k] = 2 if near(p, level) else int(p < level)
                dep[j][k] = BIG if np.isinf(s) else int(min(s * 1e5, BIG - 100))
            else:
                s = max([O.f_corr(Z[:, v], R) for v in P] + [0.0])
                rej[j][k] = 2 if near(s, level) else int(s >= level)
                dep[j][k] = int(s * 1e8)
    return dep, rej


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    n = int(rng.integers(2, 5))
    m = int(rng.integers(30, 130))
    if seed[-1] % 10 == 3:
        n, m = int(rng.integers(5, 7)), int(rng.integers(30, 70))
    style = int(rng.integers(0, 5))
    if seed[-1] % 40 == 7:      # strong non-linear dependence: every p value underflows
        n, m = 3, 1500
        x = rng.uniform(-1, 1, m)
        X = np.c_[x, x ** 2 + .001 * rng.uniform(-1, 1, m), x ** 4 + .001 * rng.uniform(-1, 1, m)][:, rng.permutation(3)]
    else:
        X, B = O.sem(rng, n, m, dens=rng.choice([.4, .8]), scale=rng.random() < .6,
                     latent=int(rng.integers(0, 2)) if style else 0)
    indep = "hsic" if rng.random() < .7 else "fcorr"
    alpha = float(rng.choice([0.0, .01, .1, .5]))
    corr = float(rng.choice([.2, .5, .8]))
    reg = None if rng.random() < .75 else True
    kw = {"alpha": alpha, "independence": indep, "ind_corr": corr}
    mode = "none"
    pk = np.full((n, n), -1)
    if rng.random() < .5:
        mode = "hard"
        pk = rand_pk(rng, n, dens=rng.choice([.2, .5]), consistent=rng.random() < .8)
        kw["prior_knowledge"] = pk.copy()
    if reg:
        kw["regressor"] = Shrink()
    o = observe(lambda: lingam.BottomUpParceLiNGAM(**kw).fit(X.copy()))
    level = alpha / (n - 1) if indep == "hsic" else corr
    r = {"n": n, "pk": pk.tolist(), "mode": mode, "indep": indep, "alpha": str(alpha), "corr": str(corr),
         "reg": bool(reg), "m": m, "order": [], "block": [], "seed": list(seed), "tol": 3,
         "nan": [[0] * n] * n, "nz": [[0] * n] * n, "rowok": []}
    r["dep"], r["rej"] = sink_tables(X, indep, level, reg)
    if o[0] == "err":
        r["out"], r["msg"] = o[1], o[2]
        return r
    try:
        r["out"] = "ok"
        co = list(o[1].causal_order_)
        if len(co) and hasattr(co[0], "__iter__"):
            r["block"] = [int(v) + 1 for v in co[0]]
            co = co[1:]
        r["order"] = [int(v) + 1 for v in co]
        A = np.asarray(o[1].adjacency_matrix_, float)
        r["nan"] = np.isnan(A).astype(int).tolist()
        r["nz"] = (np.nan_to_num(A) != 0).astype(int).tolist()
        r["rowok"] = row_table(X, A)
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
    return r


def check(ctx):
    ctx.design("MCBottomUp", 'CONSTANTS N = 3\nMODES = {"none", "hard"}\nSPECIFICATION Spec\nINVARIANTS Partition BlockShape HardRespected NoCandOnlyIfCyclic\nPROPERTY Terminates\n')
    traces = pmap(one, [(ctx.seed, 4, i) for i in range(ctx.n(1000, 4000))], chunk=4)
    ctx.judge("BottomUpTrace", "SPECIFICATION Spec\n", traces, "bottom-up-search",
              describe=lambda t: {k: t[k] for k in ("mode", "pk", "order", "block", "out", "seed", "alpha", "indep", "reg")})
    t = traces[0]
    ctx.sample({k: t[k] for k in ("n", "m", "mode", "pk", "order", "block", "out", "indep", "alpha")})
    ctx.cover["with_unknown_block"] = sum(1 for t in traces if t["block"])
    ctx.cover["rejected_prior_knowledge"] = sum(1 for t in traces if t["out"] == "ValueError")
    ctx.cover["rule"] = "random data with and without latent confounders, 2..6 variables, all options"
