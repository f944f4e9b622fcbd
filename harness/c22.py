"""ICALiNGAM: from the unmixing matrix to the causal order."""
import numpy as np
from .common import *
from . import direct_or as D
from .c16 import quiet


def tables(W):
    """integer tables of the specification, or None where a comparison is too close to call"""
    n = len(W)
    A = np.abs(W)
    with np.errstate(all="ignore"):
        cost = 1 / A
    fin = cost[np.isfinite(cost)]
    if not len(fin) or fin.max() / fin.min() > 1e5:
        return None
    sc = 1e8 / fin.max() / n
    cost = np.where(np.isfinite(cost), np.rint(np.where(np.isfinite(cost), cost, 0) * sc), 2e8).astype(int)
    vals = set()
    size = np.zeros((n, n, n))
    for r in range(n):
        for p in range(n):
            size[r, p] = A[r] / A[r, p] if A[r, p] > 0 else 0
    u = np.unique(size[size > 0])
    new = np.r_[True, np.diff(u) > 1e-9 * u[1:]] if len(u) else np.zeros(0, bool)
    grp = np.cumsum(new)                         # equal up to rounding: equal size
    rank = np.zeros(size.shape, int)
    for idx in np.ndindex(size.shape):
        if size[idx] > 0:
            rank[idx] = grp[np.searchsorted(u, size[idx])]
    rank[size == 0] = 0
    for p in range(n):
        rank[:, p, p] = 0
    return dict(n=n, tol=int(n), cost=cost.tolist(), size=rank.tolist())


def data(rng, n, T):
    p = rng.permutation(n)
    B = np.tril(rng.choice([-1.5, -.8, 0, .7, 1.2], (n, n)), -1)[np.ix_(p, p)]
    E = rng.uniform(-1, 1, (T, n)) if rng.random() < .6 else rng.exponential(1, (T, n))
    X = np.linalg.solve(np.eye(n) - B, E.T).T
    if rng.random() < .4:                        # hidden common cause: no exact model
        X = X + rng.uniform(-1, 1, (T, 1)) @ rng.normal(0, 1, (1, n))
    return X * rng.choice([1, 1, 10, .1], n)


def real_case(a):
    """the unmixing matrix is what FastICA makes of the data"""
    import lingam
    from sklearn.decomposition import FastICA
    quiet()
    seed, k = a
    rng = np.random.default_rng([seed, 22, k])
    n = int(rng.integers(2, 6))
    X = data(rng, n, int(rng.integers(60, 300)))
    if rng.random() < .2:
        X = rng.uniform(-1, 1, (len(X), n)) ** 3
    rs, it = int(rng.integers(1000)), int(rng.choice([1000, 1000, 200, 30]))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ica = FastICA(max_iter=it, random_state=rs)
        W = ica.fit(X.copy()).components_
    t = tables(W)
    if t is None:
        return None
    o = observe(lambda: lingam.ICALiNGAM(random_state=rs, max_iter=it).fit(X))
    return finish(t, o, X, dict(kind="fastica", X=X.tolist(), random_state=rs, max_iter=it))


def chosen_case(a):
    """the unmixing matrix is chosen by the specification or at random; FastICA itself is replaced"""
    import lingam
    from sklearn.decomposition import FastICA
    quiet()
    seed, k, m = a
    rng = np.random.default_rng([seed, 2222, k])
    if m is not None:
        n = len(m)
        W = np.array(m, float) * rng.choice([-1, 1], (n, n))
        if rng.random() < .7:                    # otherwise equal sizes stay
            W = np.where(W == 0, 0, W * (1 + rng.uniform(-1e-3, 1e-3, (n, n))))
    else:
        n = int(rng.integers(2, 6))
        W = rng.choice([-1, 1], (n, n)) * np.exp(rng.normal(0, rng.choice([.3, 1, 2]), (n, n)))
        if rng.random() < .2:                    # many equal sizes and cancelling sums
            W = rng.choice([-1., 1], (n, n)) * (rng.integers(1, 4, (n, n)) * .5 + np.eye(n)[rng.permutation(n)] * 2)
        if rng.random() < .4:
            W[rng.random((n, n)) < .25] = 0
        if rng.random() < .3:                    # nearly permuted triangular
            W = np.tril(W, -1) * 1.0 + np.diag(np.diag(W)) + np.triu(W, 1) * .01
            W = W[np.ix_(rng.permutation(n), rng.permutation(n))]
    if not feasible(W):
        return None
    t = tables(W)
    if t is None:
        return None
    X = data(rng, n, 60)
    used = []

    def fit(self, X, y=None):
        used.append(1)
        self.components_ = W.copy()
        self.mixing_ = np.linalg.pinv(W)
        self.mean_ = np.mean(X, axis=0)
        self.n_features_in_ = n
        self.n_iter_ = 1
        return self

    old = FastICA.fit, FastICA.fit_transform
    try:
        FastICA.fit = fit
        FastICA.fit_transform = lambda self, X, y=None: (fit(self, X), (X - np.mean(X, 0)) @ W.T)[1]
        o = observe(lambda: lingam.ICALiNGAM(random_state=0).fit(X))
    finally:
        FastICA.fit, FastICA.fit_transform = old
    if not used:
        return None                              # the unmixing matrix comes from elsewhere
    return finish(t, o, X, dict(kind="chosen", W=W.tolist(), X=X.tolist()))


def feasible(W):
    from scipy.optimize import linear_sum_assignment
    r, c = linear_sum_assignment(np.where(W == 0, 1, 0))
    return (W[r, c] != 0).all()


def finish(t, o, X, replay):
    t.update(out="ok" if o[0] == "ok" else o[1], order=[], rows=[], replay=replay)
    if o[0] == "ok":
        f = o[1]
        t["order"] = [int(v) + 1 for v in f.causal_order_]
        if t["n"] <= 3:
            t["rows"] = D.row_table(X, f.adjacency_matrix_)
    return t


def check(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS NeverStuck Permutation OrderSound WeakestFirst Count DropsBounded ReachedIsPossible Emit\n"
    ctx.design("MCIcaOrder", "CONSTANTS NV = 2\nTOP = 7\nRANDOM = 0\n" + inv + "PROPERTY Terminates\n", name="MCIca2")
    cases = ctx.generate("MCIcaOrder", "CONSTANTS NV = 3\nTOP = 7\nRANDOM = %d\n" % ctx.n(300, 3000) + inv, name="MCIca3", extra=("-seed", str(ctx.seed)))
    ms = [list(map(list, m)) for m in sorted({tuple(map(tuple, c["m"])) for c in cases})]
    ctx.cover["weight matrices generated by TLC and replayed"] = len(ms)
    traces = []
    traces += pmap(chosen_case, [(ctx.seed, k, m) for k, m in enumerate(ms)], chunk=20)
    traces += pmap(chosen_case, [(ctx.seed, 100000 + k, None) for k in range(ctx.n(1500, 8000))], chunk=20)
    traces += pmap(real_case, [(ctx.seed, k) for k in range(ctx.n(400, 2500))], chunk=5)
    ctx.cover["skipped: a comparison too close to call"] = sum(t is None for t in traces)
    traces = [t for t in traces if t]
    for n in range(2, 6):
        ctx.cover["fits with %d variables" % n] = sum(t["n"] == n for t in traces)
    ctx.judge("IcaTrace", "SPECIFICATION Spec\n", traces, "ica-order")
