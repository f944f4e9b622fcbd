"""Answers depend on settings and the last data only, never on history."""
import os, contextlib
import numpy as np
from .common import *


def same(a, b, tol=1e-6):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (set, frozenset)):
        return a == b
    if isinstance(a, str):
        return a == b
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.dtype == object):
        return hasattr(b, "__len__") and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except Exception:
        return a == b
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol * 1e-2, equal_nan=True))


def lin(rng, m, n, dist="uniform"):
    B = np.tril(rng.uniform(.5, 1.5, (n, n)) * rng.choice([-1, 0, 1], (n, n)), -1)
    e = rng.uniform(-1, 1, (m, n)) if dist == "uniform" else rng.laplace(size=(m, n))
    p = rng.permutation(n)
    return np.linalg.solve(np.eye(n) - B, e.T).T[:, p]


def series(rng, m, n):
    A = rng.uniform(-.4, .4, (n, n))
    B = np.tril(rng.uniform(-.8, .8, (n, n)), -1)
    X = np.zeros((m + 20, n))
    for t in range(1, m + 20):
        X[t] = np.linalg.solve(np.eye(n) - B, A @ X[t - 1] + rng.laplace(size=n))
    return X[20:]


ATTRS = ["causal_order_", "causal_orders_", "adjacency_matrix_", "adjacency_matrices_", "residuals_", "ancestors_list_",
         "measurement_matrix_", "p_list_", "_p_list"]


def state(m):
    r = {}
    for a in ATTRS:
        if a.startswith("_") is False and hasattr(type(m), a):
            v = getattr(m, a)
            r[a] = _copy(v)
    return r


def _copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [_copy(x) for x in v]
    if isinstance(v, set):
        return set(v)
    return v


class Fam:
    """one estimator family: two settings, two data sets, an unusable one, and how to call it"""
    cost = 1
    boots = True

    def __init__(self, name, make, data, bad, fit=None, boot=None, ask=None, cost=1, tol=1e-6):
        self.name, self.make, self.data, self.bad = name, make, data, bad
        self.fit = fit or (lambda m, X: m.fit(X))
        self.boot = boot or (lambda m, X: (lambda r: [r.adjacency_matrices_, r.total_effects_])(m.bootstrap(X, 2)))
        self.ask = ask or (lambda m, X: [m.estimate_total_effect(X, 0, 1), m.get_error_independence_p_values(X)])
        self.cost, self.tol = cost, tol


def families(seed):
    import lingam
    from sklearn.linear_model import LinearRegression
    rng = np.random.default_rng(seed)
    nanX = lambda X: np.where(np.arange(X.size).reshape(X.shape) == 3, np.nan, X)
    small = [lin(rng, 40, 3), lin(rng, 30, 2)]
    lap = [lin(rng, 40, 3, "laplace"), lin(rng, 36, 4, "laplace")]
    mg = [[lin(rng, 40, 3), lin(rng, 30, 3)], [lin(rng, 30, 2), lin(rng, 40, 2), lin(rng, 24, 2)]]
    badmg = [np.zeros((5, 3)), np.zeros((4, 2))]
    ts = [series(rng, 60, 3), series(rng, 50, 2)]
    lo = [[lin(rng, 40, 2) for _ in range(3)], [lin(rng, 30, 3) for _ in range(4)]]
    pk = np.full((3, 3), -1)
    try:        # prior knowledge against what the data say, so that forgetting it shows
        o = lingam.DirectLiNGAM().fit(small[0]).causal_order_
        pk[o[-1], o[0]] = 0
    except Exception:
        pk[1, 0] = 0
    pks = [pk, pk.copy()]
    ask_res = lambda m, X: [m.estimate_total_effect(X, 0, 1), m.get_error_independence_p_values(X)]
    shared = lingam.DirectLiNGAM()
    fams = [
        Fam("ICALiNGAM", lambda o: lingam.ICALiNGAM(random_state=o), small, nanX(small[0])),
        Fam("DirectLiNGAM", lambda o: lingam.DirectLiNGAM(prior_knowledge=pks[0] if o == 1 else None), small, nanX(small[0])),
        Fam("DirectLiNGAM-soft", lambda o: lingam.DirectLiNGAM(prior_knowledge=pks[0], apply_prior_knowledge_softly=o == 1), small, nanX(small[0])),
        Fam("DirectLiNGAM-kernel", lambda o: lingam.DirectLiNGAM(measure="kernel" if o == 1 else "pwling"), small, nanX(small[0]), cost=4),
        Fam("HighDimDirectLiNGAM", lambda o: lingam.HighDimDirectLiNGAM(J=3, alpha=.3 * o), lap, nanX(lap[0]), cost=2),
        Fam("BottomUpParceLiNGAM", lambda o: lingam.BottomUpParceLiNGAM(alpha=.02 if o == 1 else .5, prior_knowledge=pks[1] if o == 1 else None), small, nanX(small[0]), cost=2),
        Fam("BottomUpParceLiNGAM-reg", lambda o: lingam.BottomUpParceLiNGAM(alpha=.1 * o, regressor=LinearRegression()), small, nanX(small[0]), cost=2),
        Fam("RCD", lambda o: lingam.RCD(ind_alpha=.01 if o == 1 else .5, cor_alpha=.05 * o, shapiro_alpha=.9), lap, nanX(lap[0]), cost=3),
        Fam("RESIT", lambda o: lingam.RESIT(regressor=LinearRegression(), alpha=.05 if o == 1 else .5), small, nanX(small[0]), cost=2),
        Fam("MultiGroupDirectLiNGAM", lambda o: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pks[0] if o == 1 else None), mg, badmg,
            boot=lambda m, X: [[r.adjacency_matrices_, r.total_effects_] for r in m.bootstrap(X, 2)]),
        Fam("MultiGroupRCD", lambda o: lingam.MultiGroupRCD(ind_alpha=.01 if o == 1 else .5, shapiro_alpha=.9), mg, badmg, cost=4,
            boot=lambda m, X: [[r.adjacency_matrices_, r.total_effects_] for r in m.bootstrap(X, 2)]),
        Fam("CAMUV", lambda o: lingam.CAMUV(alpha=.01 if o == 1 else .3), small, nanX(small[0]), cost=40,
            boot=lambda m, X: [0], ask=lambda m, X: [0]),
        Fam("MultiGroupCAMUV", lambda o: lingam.MultiGroupCAMUV(alpha=.01 if o == 1 else .3), mg, badmg, cost=60, boot=lambda m, X: [0], ask=lambda m, X: [0]),
        Fam("VARLiNGAM", lambda o: lingam.VARLiNGAM(lags=2, criterion="bic" if o == 1 else None, prune=o == 1, lingam_model=shared), ts, nanX(ts[0]), cost=2),
        Fam("VARLiNGAM-lags", lambda o: lingam.VARLiNGAM(lags=3 if o == 1 else 1, criterion="aic", lingam_model=None), ts, nanX(ts[0]), cost=2),
        Fam("VARMALiNGAM", lambda o: lingam.VARMALiNGAM(order=(1, 1), criterion=None, prune=o == 1, max_iter=2, lingam_model=shared), ts, nanX(ts[0]),
            ask=lambda m, X: [m.get_error_independence_p_values()], cost=60, tol=1e-4),
        Fam("LongitudinalLiNGAM", lambda o: lingam.LongitudinalLiNGAM(n_lags=o), lo, [np.zeros((4, 2))],
            boot=lambda m, X: (lambda r: [r.adjacency_matrices_, r.total_effects_])(m.bootstrap(X, 2)),
            ask=lambda m, X: [m.estimate_total_effect(X, 1, 0, 2, 1), m.get_error_independence_p_values()]),
        Fam("LiM", lambda o: lingam.LiM(lambda1=.05 * o, max_iter=3), [np.c_[lin(rng, 40, 2), rng.integers(0, 2, 40)], np.c_[rng.integers(0, 2, 30), lin(rng, 30, 1)]],
            np.zeros((3,)), fit=lambda m, X: m.fit(X, np.array([[int(len(np.unique(np.asarray(X)[:, j])) > 2) for j in range(np.asarray(X).shape[1])]]), only_global=False),
            boot=lambda m, X: [0], ask=lambda m, X: [0], cost=30, tol=1e-4),
    ]
    for f in fams:
        if f.name.startswith(("VARLiNGAM",)):
            f.ask = lambda m, X: [m.estimate_total_effect(X, 0, 1, 1), m.get_error_independence_p_values()]
    return {f.name: f for f in fams}, pks


def dup(X):
    return [x.copy() for x in X] if isinstance(X, list) else X.copy()


@contextlib.contextmanager
def quiet():
    d, n = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    try:
        yield
    finally:
        os.dup2(d, 1)
        os.close(d)
        os.close(n)


_ref = {}


def reference(F, seed, kind, o, d):
    """what a fresh object with these settings answers"""
    k = (F.name, tuple(seed), kind, o, d)
    if k not in _ref:
        m = F.make(o)
        X = dup(F.data[d - 1])
        if kind == "ask":
            np.random.seed(100 * o + d)
            r = observe(lambda: F.fit(m, X))
            if r[0] == "ok":
                np.random.seed(7)
                r = observe(lambda: F.ask(m, dup(F.data[d - 1])))
        else:
            np.random.seed(100 * o + d)
            r = observe(lambda: (F.fit if kind == "fit" else F.boot)(m, X))
            if r[0] == "ok" and kind == "fit":
                r = ("ok", state(m))
        _ref[k] = r
    return _ref[k]


_fam = {}


def one(job):
    name, seed, script = job
    if tuple(seed) not in _fam:
        _fam.clear()
        _fam[tuple(seed)] = families(seed)
    fams, pks = _fam[tuple(seed)]
    F = fams[name]
    pk0 = [p.copy() for p in pks]
    with quiet():
        works = [[reference(F, seed, "fit", o, d)[0] == "ok" and reference(F, seed, "boot", o, d)[0] == "ok" for d in (1, 2)] for o in (1, 2)]
        fits = [[reference(F, seed, "fit", o, d)[0] == "ok" for d in (1, 2)] for o in (1, 2)]
        if works != fits:       # a bootstrap of usable data may still fail (cycles): leave bootstraps out
            script = [s for s in script if s[0] != "boot"]
        objs = {o: F.make(o) for o in (1, 2)}
        cur = {1: 0, 2: 0}
        ops = []
        for kind, o, d in script:
            m = objs[o]
            if kind == "ask":
                d = cur[o]
                if d == 0:
                    continue
            X = dup(F.bad) if kind == "bad" else dup(F.data[d - 1])
            X0 = dup(X)
            if kind == "ask":
                before = state(m)
                np.random.seed(7)
                r = observe(lambda: F.ask(m, X))
                ref = reference(F, seed, "ask", o, d)
                got = d if r[0] == ref[0] and (r[0] == "err" and r[1] == ref[1] or r[0] == "ok" and same(r[1], ref[1], F.tol)) else -1
                if not same(before, state(m), 0):
                    got = -2
            else:
                np.random.seed(100 * o + d)
                r = observe(lambda: (F.boot if kind == "boot" else F.fit)(m, X))
                ans = r
                if kind != "bad":
                    ref = reference(F, seed, kind, o, d)
                    if not same(X, X0, 0):
                        got = -3
                    elif r[0] == "err":
                        got = 0 if ref[0] == "err" and ref[1] == r[1] else -1
                    else:
                        for x in (X if isinstance(X, list) else [X]):      # the model must not live on the caller's array
                            x[:] = 0
                        ans = state(m) if kind == "fit" else r[1]
                        got = d if ref[0] == "ok" and same(ans, ref[1], F.tol) else -1
                else:
                    got = 0 if r[0] == "err" else -1
                cur[o] = d if kind == "fit" and r[0] == "ok" else 0
            ops.append({"op": kind, "o": o, "d": d, "got": got, "msg": "" if r[0] == "ok" else str(r[1:])[:120]})
        if any(not np.array_equal(a, b) for a, b in zip(pks, pk0)):
            ops[-1]["got"] = -3
            for a, b in zip(pks, pk0):
                a[:] = b
    return {"fam": name, "seed": list(seed), "works": fits, "ops": ops}


def check(ctx):
    ctx.design("MCHistory", "CONSTANTS Objs = {1, 2}\nDatas = {1, 2}\nMaxLen = %d\nEmit = FALSE\nSPECIFICATION Spec\nINVARIANTS Memoryless LastFitStands\n" % ctx.n(4, 5))
    cases = ctx.generate("MCHistory", "CONSTANTS Objs = {1, 2}\nDatas = {1, 2}\nMaxLen = 3\nEmit = TRUE\nSPECIFICATION Spec\n")
    cases = [[tuple(s) for s in c] for c in cases]
    jobs = []
    seeds = [(ctx.seed, 16, i) for i in range(ctx.n(2, 6))]
    fams, _ = families(seeds[0])
    kinds = ["fit", "fit", "boot", "bad", "ask", "ask"]
    for s in seeds:
        for name, F in fams.items():
            k = max(4, ctx.n(150, 400) // F.cost)
            idx = ctx.rng.permutation(len(cases))[:k]
            scripts = [cases[i] for i in idx]
            for _ in range(max(2, k // 5)):     # longer lives
                scripts.append([(str(ctx.rng.choice(kinds)), int(ctx.rng.integers(1, 3)), int(ctx.rng.integers(1, 3))) for _ in range(8)]
                               + [("fit", 1, 1), ("ask", 1, 1), ("fit", 2, 2), ("ask", 2, 2)])
            jobs += [(name, s, sc) for sc in scripts]
    jobs = [jobs[i] for i in ctx.rng.permutation(len(jobs))]
    traces = [t for t in pmap(one, jobs, chunk=3) if t["ops"]]
    ctx.judge("HistoryTrace", "CONSTANTS Objs = {1, 2}\nDatas = {1, 2}\nSPECIFICATION Spec\n", traces, "history")
    ctx.sample(traces[0])
    ctx.cover["enumerated_histories"] = len(cases)
    ctx.cover["families"] = {f: sum(t["fam"] == f for t in traces) for f in fams}
    ctx.cover["rule"] = "histories of three operations of two objects enumerated by TLC (sampled per family), plus random ones of twelve operations"
