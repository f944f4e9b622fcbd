"""Longitudinal LiNGAM: past regressions, instantaneous and lagged effects, prior knowledge."""
import numpy as np
from .common import *
from .direct_or import rand_pk


def data(rng, T, m, p):
    X = []
    B = np.tril(rng.uniform(.4, 1.2, (p, p)) * rng.choice([-1, 0, 1], (p, p)), -1)
    for t in range(T):
        past = sum((rng.uniform(-.6, .6, (p, p)) @ X[t - 1 - k].T).T for k in range(min(t, 2))) if t else 0
        X.append(np.linalg.solve(np.eye(p) - B, (past + rng.uniform(-2, 2, (m, p)) + rng.integers(-1, 2, p)).T).T)
    return [np.clip(np.rint(x), -6, 6) for x in X]


def mat(M, k):
    M = np.asarray(M, float)
    return [] if np.isnan(M).all() else [[NAN] * M.shape[1]] * len(M) if not np.isfinite(M).all() else np.rint(np.clip(M, -30, 30) * k).astype(int).tolist()


def order(o):
    return [] if all(isinstance(v, float) and np.isnan(v) for v in o) else [int(v) + 1 for v in o]


def one(seed):
    import lingam
    rng = np.random.default_rng(seed)
    T, p = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    L = int(rng.integers(1, min(T, 4)))
    m = int(rng.integers(20, 31)) + 3 * p * L
    X = data(rng, T, m, p)
    meas = "kernel" if rng.random() < .1 else "pwling"
    kind = "pk" if rng.random() < .35 else "plain"
    r = {"kind": kind, "T": T, "p": p, "L": L, "m": m, "X": [x.astype(int).tolist() for x in X], "sc": 1000, "k": 1000, "measure": meas, "seed": list(seed),
         "R": [], "B": [], "order": [], "found": [1] * T, "tol": 0, "otol": 0, "A": [], "pk": [], "G": [], "gorder": [], "gout": "ok"}
    kw = dict(n_lags=L, measure=meas)
    if kind == "pk":
        A = np.full((T, L + 1, p, p), -1)
        for t in range(T):
            A[t, 0] = rand_pk(rng, p, .4, .5, consistent=True)
            for l in range(1, L + 1):
                A[t, l] = rng.choice([-1, -1, 0, 1], (p, p))
        n = T * p
        pk = np.zeros((n, n), int)
        for t in range(T):
            for l in range(L + 1):
                if t >= l:
                    pk[t * p:(t + 1) * p, (t - l) * p:(t - l + 1) * p] = A[t, l]
        r["A"], r["pk"] = A.tolist(), pk.tolist()
        kw["prior_knowledge"] = A if rng.random() < .5 else A.tolist()
        g = observe(lambda: lingam.DirectLiNGAM(prior_knowledge=pk, measure=meas).fit(np.hstack(X)))
        r["gout"] = "ok" if g[0] == "ok" else g[1]
        if g[0] == "ok":
            G = g[1].adjacency_matrix_
            r["G"] = [[mat(G[t * p:(t + 1) * p, (t - l) * p:(t - l + 1) * p], 1000) if t >= l else [] for l in range(L + 1)] for t in range(T)]
            r["gorder"] = [[int(v) % p + 1 for v in g[1].causal_order_ if v // p == t] for t in range(T)]
    Xa = X if rng.random() < .6 else np.array(X)
    keep = [x.copy() for x in X]
    o = observe(lambda: lingam.LongitudinalLiNGAM(**kw).fit(Xa))
    r["out"], r["msg"] = ("ok", "") if o[0] == "ok" else (o[1], o[2])
    if o[0] != "ok":
        return r

    def fill():
        M = o[1]
        B = np.asarray(M.adjacency_matrices_, float)
        assert B.shape == (T, L + 1, p, p)
        assert len(M.causal_orders_) == T
        assert all(np.array_equal(a, b) for a, b in zip(Xa, keep)), "data modified"
        r["B"] = [[mat(B[t, l], 1000) for l in range(L + 1)] for t in range(T)]
        r["order"] = [order(v) for v in M.causal_orders_]
        if kind == "pk":
            return
        R = np.asarray(M.residuals_, float)
        assert R.shape == (T, m, p)
        r["R"] = [mat(R[t], 1000) for t in range(T)]
        assert all(len(r["R"][t]) == m and r["R"][t][0][0] != NAN for t in range(L, T)), "residuals undefined"
        for t in range(L, T):
            D = lingam.DirectLiNGAM(measure=meas).fit(R[t].copy())
            ok = np.allclose(D.adjacency_matrix_, B[t, 0], rtol=1e-6, atol=1e-8) and D.causal_order_ == list(M.causal_orders_[t])
            # lagged effects, with full precision
            P = np.concatenate([X[t - l] for l in range(1, L + 1)], axis=1)
            P, Y = P - P.mean(0), X[t] - X[t].mean(0)
            c = np.linalg.lstsq(P, Y, rcond=None)[0].T
            A = np.eye(p) - B[t, 0]
            ok = ok and all(np.allclose(B[t, l], A @ c[:, (l - 1) * p:l * p], rtol=1e-5, atol=1e-7) for l in range(1, L + 1))
            r["found"][t] = int(ok)
        b0 = np.nanmax(np.abs(B[L:, 0])) * 1000
        rm = np.nanmax(np.abs(R[L:])) * 1000
        r["tol"] = int(np.ceil(.5 * p * (rm + 6000) + .5 * (1000 + p * b0) + .5 * 1000 * 6 * p * L + 10))
        r["otol"] = int(np.ceil(m * 6 * m + 100))
        if p * (b0 + 1000) * (rm + 6000) > 1.5e9 or np.nanmax(np.abs(B[L:])) * 1000 * 1000 * 6 * p * L > 1.5e9:
            return "big"
    a = observe(fill)
    if a[0] != "ok":
        r["out"], r["msg"] = "answer-malformed", str(a)
    elif a[1] == "big":
        return None
    return r


def check(ctx):
    import lingam
    ctx.design("MCTimeSeries", "CONSTANTS W = {0, 1, 2}\nW1 = {0, 1}\nWO = {0}\nE = {0, 1}\nTMax = %d\nSPECIFICATION Spec\nINVARIANTS StructuralLags ResidualsAreMixedErrors StructuralEquation\n" % ctx.n(3, 4))
    tr = pmap(one, [(ctx.seed, 18, i) for i in range(ctx.n(1500, 6000))], chunk=8)
    traces = [t for t in tr if t is not None]
    ctx.judge("LongitudinalTrace", "SPECIFICATION Spec\n", traces, "longitudinal")
    X = data(ctx.rng, 3, 20, 2)
    F = lambda X, **k: lambda: lingam.LongitudinalLiNGAM(**k).fit(X)
    bad = {"one time point": F(X[:1]), "no list": F(None), "different shapes": F([X[0], X[1][:5]]), "different width": F([X[0], X[1][:, :1]]),
           "knowledge 2D": lambda: lingam.LongitudinalLiNGAM(prior_knowledge=np.zeros((2, 2))),
           "knowledge for other T": F(X, prior_knowledge=np.full((2, 2, 2, 2), -1)), "knowledge for other lags": F(X, n_lags=2, prior_knowledge=np.full((3, 2, 2, 2), -1))}
    for k, f in bad.items():
        o = observe(f)
        if o[:2] != ("err", "ValueError"):
            ctx.fail("accepted: " + k, {"got": str(o)[:100]})
    ctx.cover["with_prior_knowledge"] = sum(t["kind"] == "pk" for t in traces)
    ctx.cover["rejected_knowledge"] = sum(t["out"] == "ValueError" for t in traces)
    ctx.cover["skipped_overflow"] = sum(t is None for t in tr)
    ctx.cover["rule"] = "integer panels of 2..5 time points, 1..3 variables, 1..3 lags, both measures, with and without prior knowledge"
    t = dict(traces[0]); t.pop("X"); t.pop("R")
    ctx.sample(t)
