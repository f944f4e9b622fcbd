"""Every order-based estimator: the order is a permutation, the graph follows it."""
import numpy as np
from .common import *
from . import oracles as O
from .direct_or import rand_pk


def blocks(order):
    res = []
    for e in order:
        res.append([int(v) + 1 for v in e] if hasattr(e, "__iter__") else [int(e) + 1])
    return res


def data(rng, n, m):
    style = rng.integers(0, 6)
    X, _ = O.sem(rng, n, m, dens=rng.choice([.2, .6, 1.]), scale=rng.random() < .5,
                 latent=int(rng.random() < .3), noise=None if rng.random() < .7 else ["gauss"])
    if style == 1:
        X = np.round(X * 3)                      # ties, integer values
        X = X + 1e-3 * rng.normal(size=X.shape) if rng.random() < .5 else X.astype(int)
    if style == 2:
        X = X * 10.0 ** rng.integers(-5, 6, n)
    if style == 3 and n > 2:
        X[:, -1] = X[:, 0] + 1e-4 * rng.normal(size=m)
    if style == 4:
        X = X + rng.normal(size=n) * 100
    return X


def one(a):
    seed, kind = a
    rng = np.random.default_rng(seed)
    np.random.seed(int(rng.integers(1 << 31)))
    import lingam
    from sklearn.linear_model import LinearRegression
    n = int(rng.integers(2, 7))
    m = int(rng.integers(30, 150))
    wide = seed[-1] % 25 == 24 and kind not in ("varma", "bootstrap", "highdim")
    if wide:
        n = int(rng.integers(8, 14 if kind != "resit" else 10))
        m += 60
    opts = {}

    def pkopt(hard=True):
        if rng.random() < .5:
            opts["prior_knowledge"] = rand_pk(rng, n, dens=rng.choice([.1, .3]), consistent=True)

    def build():
        if kind == "direct":
            if not wide:
                pkopt()
            opts["measure"] = "pwling" if rng.random() < .7 else "kernel"
            if "prior_knowledge" in opts:
                opts["apply_prior_knowledge_softly"] = bool(rng.random() < .3)
            X = data(rng, n, m if opts["measure"] == "pwling" else 40) if not wide or opts["measure"] == "pwling" else data(rng, 7, 30)
            f = lingam.DirectLiNGAM(**opts).fit(X)
            return [(f.causal_order_, [f.adjacency_matrix_])]
        if kind == "ica":
            opts.update(random_state=int(rng.integers(100)), max_iter=int(rng.choice([1, 5, 200])))
            f = lingam.ICALiNGAM(**opts).fit(data(rng, n, m))
            return [(f.causal_order_, [f.adjacency_matrix_])]
        if kind == "highdim":
            opts.update(J=int(rng.integers(3, 5)), K=int(rng.integers(1, 5)), alpha=float(rng.choice([0., .5, 1.])))
            k = int(rng.integers(8, n + 9)) if rng.random() < .3 else m
            nn = n if k == m else int(rng.integers(k, k + 3))
            f = lingam.HighDimDirectLiNGAM(**opts).fit(data(rng, nn, k))
            return [(f.causal_order_, [f.adjacency_matrix_])]
        if kind == "resit":
            opts["alpha"] = float(rng.choice([0., .01, .5, 1.]))
            from sklearn.tree import DecisionTreeRegressor
            reg = LinearRegression() if rng.random() < .6 else DecisionTreeRegressor(max_depth=3, random_state=0)
            f = lingam.RESIT(regressor=reg, **opts).fit(data(rng, n, m))
            return [(f.causal_order_, [f.adjacency_matrix_])]
        if kind == "multi":
            pkopt()
            f = lingam.MultiGroupDirectLiNGAM(**opts).fit([data(rng, n, int(rng.integers(30, 90))) for _ in range(int(rng.integers(2, 4)))])
            return [(f.causal_order_, f.adjacency_matrices_)]
        if kind == "parce":
            pkopt()
            opts.update(alpha=float(rng.choice([0., .05, .5])), independence=str(rng.choice(["hsic", "fcorr"])))
            f = lingam.BottomUpParceLiNGAM(**opts).fit(data(rng, n if wide else min(n, 5), min(m, 80)) if "prior_knowledge" not in opts else data(rng, n, 60))
            return [(f.causal_order_, [f.adjacency_matrix_])]
        if kind == "var":
            opts.update(lags=int(rng.integers(1, 4)), criterion=[None, "bic", "aic", "hqic", "fpe"][rng.integers(5)], prune=bool(rng.random() < .7))
            if rng.random() < .3:
                opts["lingam_model"] = lingam.ICALiNGAM(random_state=1)
            f = lingam.VARLiNGAM(**opts).fit(data(rng, n if wide else min(n, 4), m + 60))
            return [(f.causal_order_, [f.adjacency_matrices_[0]])]
        if kind == "varma":
            opts.update(order=[(1, 1), (1, 0), (2, 1)][rng.integers(3)], criterion=None, prune=bool(rng.random() < .7), max_iter=3)
            nn = min(n, 3)
            X = O.sem(rng, nn, 120)[0]
            if rng.random() < .5:
                p, q = opts["order"] = (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
                opts["ar_coefs"] = rng.uniform(-.3, .3, (p, nn, nn))
                opts["ma_coefs"] = rng.uniform(-.3, .3, (q, nn, nn))
            f = lingam.VARMALiNGAM(**opts).fit(X)
            return [(f.causal_order_, [f.adjacency_matrices_[0][0]])]
        if kind == "longitudinal":
            nn, T, L = n if wide else min(n, 4), int(rng.integers(2, 5)), int(rng.integers(1, 3))
            L = min(L, T - 1)
            Xs = [data(rng, nn, 60)]
            for _ in range(T - 1):
                Xs.append(Xs[-1] @ rng.uniform(-.5, .5, (nn, nn)) + data(rng, nn, 60))
            opts["n_lags"] = L
            if rng.random() < .4:
                opts["prior_knowledge"] = np.full((T, L + 1, nn, nn), -1)
            f = lingam.LongitudinalLiNGAM(**opts).fit(Xs)
            return [(f.causal_orders_[t], [f.adjacency_matrices_[t][0]]) for t in range(L, T)]
        if kind == "bootstrap":
            X = data(rng, min(n, 4), 40)
            cls = [lingam.DirectLiNGAM, lingam.ICALiNGAM][rng.integers(2)]
            r = cls().bootstrap(X, 3)
            return [(None, [B]) for B in r.adjacency_matrices_]

    o = observe(build)
    base = {"kind": kind, "seed": list(seed), "opts": {k: str(v)[:200] for k, v in opts.items()}, "nanok": 0}
    if o[0] == "err":
        return [dict(base, out="raised", msg=o[1] + ": " + o[2], n=1, order=[], mats=[])]
    res = []
    for order, mats in o[1]:
        t = dict(base, out="ok")
        try:
            t["mats"] = [smat(B) for B in mats]
            t["n"] = len(t["mats"][0])
            t["order"] = [[i] for i in topo(t["mats"][0])] if order is None else blocks(order)
        except Exception as e:
            t.update(out="malformed-" + type(e).__name__, mats=[], n=1, order=[])
        res.append(t)
    return res


def topo(M):
    """some order to judge a graph against when none is reported: acyclic graphs have one"""
    n, left, o = len(M), set(range(len(M))), []
    while left:
        z = [i for i in sorted(left) if not any(M[i][j] for j in left)]
        z = z[:1] or [min(left)]
        o.append(z[0] + 1)
        left.discard(z[0])
    return o


COUNTS = {"direct": (900, 3000), "ica": (800, 3000), "highdim": (500, 1500), "resit": (200, 800), "multi": (400, 1500),
          "parce": (300, 1000), "var": (600, 1500), "varma": (40, 120), "longitudinal": (200, 800), "bootstrap": (60, 200)}


def check(ctx):
    ctx.design("MCOrder", "CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANTS OrderOK EdgesOK GraphOK\n" % ctx.n(3, 4))
    jobs = [((ctx.seed, 1, k, i), kind) for k, (kind, c) in enumerate(COUNTS.items()) for i in range(ctx.n(*c))]
    res = pmap(one, sorted(jobs, key=lambda j: j[1] not in ("varma", "parce", "resit")), chunk=2)
    traces = [t for ts in res for t in ts]
    raised = [t for t in traces if t["out"] == "raised"]
    traces = [t for t in traces if t["out"] != "raised"]
    ctx.judge("OrderTrace", "SPECIFICATION Spec\n", traces, "order-and-graph",
              describe=lambda t: {k: t[k] for k in ("kind", "opts", "seed", "order", "mats", "out")})
    ctx.cover["by_method"] = {k: sum(t["kind"] == k for t in traces) for k in COUNTS}
    ctx.cover["raised"] = {k: sum(t["kind"] == k for t in raised) for k in COUNTS}
    ctx.cover["raised_examples"] = sorted({t["kind"] + " " + t["msg"][:90] for t in raised})[:12]
    for t in traces[:3]:
        ctx.sample({k: t[k] for k in ("kind", "opts", "order", "mats")})
    ctx.assumptions.append("calls that raise are outside the statement; they are counted, not judged")
