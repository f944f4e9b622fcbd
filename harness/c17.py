"""VAR-LiNGAM and VARMA-LiNGAM: order, residuals, recovered structure, pruning."""
import numpy as np
from .common import *
from . import oracles as O
from .c16 import quiet


def stub(B0, order):
    import lingam.base

    class Stub(lingam.DirectLiNGAM):
        seen = None
        adjacency_matrix_ = property(lambda self: self._adjacency_matrix)
        causal_order_ = property(lambda self: self._causal_order)

        def fit(self, X):
            Stub.seen = np.array(X, float)      # also of a copy of this model
            self._adjacency_matrix = np.array(B0, float)
            self._causal_order = [int(v) for v in order]
            return self
    return Stub()


def fx(A, sc):
    """fixed point; None if not representable"""
    A = np.asarray(A, float)
    if not np.isfinite(A).all() or np.abs(A * sc).max(initial=0) > 5e8:
        return None
    return np.rint(A * sc).astype(int).tolist()


def joined(X, E, p, q, wrap):
    """x(t), x(t-1).., e(t-1).. side by side"""
    k = 0 if wrap else max(p, q)
    cols = [np.roll(X, l, axis=0) for l in range(p + 1)] + [np.roll(E, l, axis=0) for l in range(1, q + 1)]
    return np.concatenate(cols, axis=1)[k:]


def rows(X, E, p, q, psi, wraps=(False,)):
    """rowok[i][mask]: row i is the adaptive lasso on the contemporary set of the mask plus all lags"""
    n = X.shape[1]
    W = n * (1 + p + q)
    res = []
    for i in range(n):
        r = []
        for k in range(1 << n):
            P = [v for v in range(n) if k >> v & 1]
            ok = 0
            if i not in P:
                for w in wraps:
                    J = joined(X, E, p, q, w)
                    ref = np.zeros(W)
                    cols = P + list(range(n, W))
                    ref[cols] = O.adaptive_lasso(J, cols, i)
                    sd = J[:, cols].std(0)
                    if (sd == 0).any() or np.linalg.cond((J[:, cols] - J[:, cols].mean(0)) / sd) > 1e5:
                        ok = 1      # collinear: rounding decides what is pruned
                    if np.allclose(psi[i], ref, rtol=1e-5, atol=1e-8) and np.array_equal(psi[i] != 0, ref != 0):
                        ok = 1
            r.append(ok)
        res.append(r)
    return res


def dag(rng, n, w=(-2, -1, 0, 1, 2)):
    p = rng.permutation(n)
    B = np.zeros((n, n), int)
    for a in range(n):
        for b in range(a):
            B[p[a], p[b]] = rng.choice(w)
    return B, [int(v) for v in p]


def ranks(v):
    v = np.asarray(v, float)
    u = np.unique(v)
    return (1 + np.searchsorted(u, v)).tolist()


def data(rng, n, m, amp=9):
    """integer series with memory"""
    A = rng.uniform(-.5, .5, (3, n, n)) * rng.choice([0, 1], (3, 1, 1))
    X = np.zeros((m + 5, n))
    for t in range(3, m + 5):
        X[t] = sum(A[k] @ X[t - 1 - k] for k in range(3)) + rng.laplace(size=n) * 3
    return np.clip(np.rint(X[5:]), -4 * amp, 4 * amp)


def one(seed):
    import lingam
    from statsmodels.tsa.vector_ar.var_model import VAR
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 4)) if rng.random() < .9 else 4
    m = int(rng.integers(18, 45))
    X = data(rng, n, m)
    B0, order = dag(rng, n)
    cls = "varma" if rng.random() < .4 else "var"
    src = "given" if cls == "varma" or rng.random() < .4 else "estimated"
    if src == "estimated" and n == 1:
        n = 2
        X = data(rng, n, m)
        B0, order = dag(rng, n)
    prune = int(rng.random() < .4)
    L = int(rng.integers(1, 5 if cls == "var" and src == "estimated" else 4))
    if rng.random() < .08 and n < 4:
        L = int(rng.integers(5, 7))
        m += 12
        X = data(rng, n, m)
    if src == "estimated":
        m = max(m, 8 + 2 * n * L)
        X = data(rng, n, m)
    crit = str(rng.choice(["aic", "bic", "hqic", "fpe", "none"]))
    q = int(rng.integers(1, 4)) if cls == "varma" else 0
    if prune and m < n * (1 + L + q) + L + q + 12:
        m = n * (1 + L + q) + L + q + 12
        X = data(rng, n, m)
    Mg, Hg = [], []
    sc = 10000 if src == "estimated" else 1000
    kw = {}
    if src == "given":
        Mg = rng.choice([-2, -1, 0, 0, 1], (L, n, n)).tolist()
        if cls == "varma":
            Hg = [dag(rng, n, (0, 0, 1, -1))[0].tolist() for _ in range(q)] if rng.random() < .7 else rng.choice([0, 0, 0, 1, -1], (q, n, n)).tolist()
    st = stub(B0, order)
    dflt = cls == "var" and n > 1 and rng.random() < .15
    if cls == "var":
        kw = dict(lags=L, criterion=None if crit == "none" else crit, prune=bool(prune), ar_coefs=Mg or None, lingam_model=None if dflt else st)
        mk = lambda: lingam.VARLiNGAM(**kw)
    else:
        mk = lambda: lingam.VARMALiNGAM(order=(L, q), criterion=None if crit == "none" else crit, prune=bool(prune), ar_coefs=Mg, ma_coefs=Hg, lingam_model=st)
    np.random.seed(int(rng.integers(1 << 30)))
    keep = X.copy()
    o = observe(lambda: mk().fit(X))
    r = {"cls": cls, "src": src, "prune": prune, "X": X.astype(int).tolist(), "B0": B0.tolist(), "Mg": Mg, "Hg": Hg, "sc": sc, "seed": list(seed),
         "crit": [], "ord": [[L, q]], "order": [], "wantorder": [], "same": 1, "R": [], "B": [], "O": [], "B0got": [], "rowok": [], "tol": 0, "otol": 0,
         "fit": 1, "n": n, "m": m, "criterion": crit, "lags": L, "out": "ok" if o[0] == "ok" else o[1], "msg": "" if o[0] == "ok" else o[2]}
    if src == "estimated":
        r["ord"] = [[l, 0] for l in range(1, L + 1)]
        if crit != "none":
            r["crit"] = ranks([getattr(VAR(X).fit(maxlags=l, ic=None, trend="n"), crit) for l in range(1, L + 1)])
    if o[0] != "ok":
        return r
    a = observe(fill, r, o[1], X, keep, st, dflt, locals())
    if a[0] != "ok":
        r["out"], r["msg"] = "answer-malformed", str(a)
        return r
    return a[1]


def fill(r, M, X, keep, st, dflt, v):
    import lingam
    cls, src, prune, n, m, L, q, sc, B0, order = (v[k] for k in "cls src prune n m L q sc B0 order".split())
    am = M.adjacency_matrices_
    B = np.asarray(am if cls == "var" else am[0], float)
    Om = np.zeros((0, n, n)) if cls == "var" else np.asarray(am[1], float)
    R = np.asarray(M.residuals_, float)
    if dflt:
        D = lingam.DirectLiNGAM().fit(R.copy())
        r["wantorder"] = [int(v) + 1 for v in D.causal_order_]
        r["same"] = int(np.allclose(D.adjacency_matrix_, B[0], rtol=1e-7, atol=1e-9) or prune)
        # the real structure is not made of integers: judge the rest with the recovered noise only
        r["B0"] = np.zeros((n, n), int).tolist()
        A = np.eye(n) - D.adjacency_matrix_
        Bx = np.concatenate([[np.zeros((n, n))], np.linalg.solve(A, B[1:])]) if not prune else B
    else:
        r["wantorder"] = [v + 1 for v in order]
        r["same"] = int(st.seen is not None and st.seen.shape == R.shape and np.allclose(st.seen, R, rtol=1e-9, atol=1e-9))
        Bx = B
    r["order"] = [int(v) + 1 for v in M.causal_order_]
    r["same"] = int(r["same"] and np.array_equal(X, keep))
    ok = B.ndim == 3 and B.shape[1:] == (n, n) and Om.ndim == 3 and R.ndim == 2 and R.shape[1] == n
    vals = [fx(R, sc), fx(Bx, sc), fx(Om, sc)] if ok else [None]
    if any(v is None for v in vals):
        # too large for 32-bit arithmetic: an exploding recursion
        if ok and np.isfinite(R).all():
            return None
        r["out"] = "answer-malformed"
        return r
    r["R"], b, r["O"] = vals
    r["B0got"], r["B"] = b[0], b[1:]
    if np.abs(np.asarray(r["R"])).max() * np.abs(X).max() * len(X) > 2e9 and src == "estimated":
        return None
    if np.abs(np.asarray(r["R"])).max() * (1 + np.abs(B0).sum()) * 3 > 2e9 or np.abs(Bx).max() * sc * np.abs(X).max() * n * L > 2e9 or \
            (q and np.abs(Om).max() * sc * (1 + np.abs(B0).sum()) > 2e9):
        return None
    r["tol"] = int(np.ceil(.5 * n * max(1, len(b) - 1) * (np.abs(X).max() + 1) + .5 * (1 + np.abs(B0).sum()) + 2))
    r["otol"] = int(np.ceil(.5 * np.abs(X).sum(0).max() + 10))
    if prune and n <= 4:
        psi = np.concatenate([*B, *Om], axis=1)
        p = len(B) - 1
        if cls == "var":
            r["rowok"] = rows(X, X, p, 0, psi)
        else:
            A = np.eye(n) - B0
            E = R @ A.T
            try:
                r["rowok"] = rows(X[len(X) - len(E):], E, L, q, psi)
            except Exception as e:
                return None
        if dflt:
            pass
    return r


def mle(seed):
    """estimated VARMA: order search and the maximum likelihood fit"""
    import lingam
    from statsmodels.tsa.statespace.varmax import VARMAX
    rng = np.random.default_rng(seed)
    n, m = 2, int(rng.integers(30, 45))
    B0, order = dag(rng, n)
    P, Q = [(1, 1), (1, 0), (1, 1), (2, 0), (0, 1), (1, 1)][seed[-1] % 6]
    crit = [None, "aic", "bic", "hqic"][int(rng.integers(4))]
    cand = [(a, b) for a in range(P + 1) for b in range(Q + 1) if a + b] if crit else [(P, Q)]
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(8):      # data on which the criteria disagree, if there are
            X = data(rng, n, m)
            fits = [VARMAX(X, order=c, trend="c").fit(maxiter=3) for c in cand]
            best = {k: min(range(len(cand)), key=lambda i: getattr(fits[i], k)) for k in ("aic", "bic", "hqic")}
            if len(cand) == 1 or sum(best[k] == best[crit] for k in best) < 3:
                break
    st = stub(B0, order)
    with quiet():
        o = observe(lambda: lingam.VARMALiNGAM(order=(P, Q), criterion=crit, prune=False, max_iter=3, lingam_model=st).fit(X))
    sc = 1000
    r = {"cls": "varma", "src": "estimated", "prune": 0, "X": X.astype(int).tolist(), "B0": B0.tolist(), "Mg": [], "Hg": [], "sc": sc, "seed": list(seed),
         "crit": ranks([getattr(f, crit) for f in fits]) if crit else [], "ord": [list(c) for c in cand], "order": [], "wantorder": [v + 1 for v in order], "same": 1,
         "R": [], "B": [], "O": [], "B0got": [], "rowok": [], "tol": 0, "otol": 0, "fit": 0, "out": "ok" if o[0] == "ok" else o[1], "msg": "" if o[0] == "ok" else o[2]}
    if o[0] != "ok":
        return r
    M = o[1]
    B, Om = np.asarray(M.adjacency_matrices_[0]), np.asarray(M.adjacency_matrices_[1]).reshape(-1, n, n)
    R = np.asarray(M.residuals_)
    r["order"] = [int(v) + 1 for v in M.causal_order_]
    r["same"] = int(st.seen is not None and np.allclose(st.seen, R))
    v = [fx(R, sc), fx(B, sc), fx(Om, sc)]
    if any(x is None for x in v):
        return None
    r["R"], b, r["O"] = v
    r["B0got"], r["B"] = b[0], b[1:]
    A = np.eye(n) - B0
    for c, f in zip(cand, fits):
        if list(c) == [len(B) - 1, len(Om)]:
            phis = np.asarray(f.coefficient_matrices_var).reshape(-1, n, n) if c[0] else np.zeros((0, n, n))
            ths = np.asarray(f.coefficient_matrices_vma).reshape(-1, n, n) if c[1] else np.zeros((0, n, n))
            good = np.allclose(R, f.resid, rtol=1e-4, atol=1e-4)
            good &= all(np.allclose(B[1 + k], A @ phis[k], rtol=1e-4, atol=1e-5) for k in range(c[0]))
            good &= all(np.allclose(Om[k] @ A, A @ ths[k], rtol=1e-4, atol=1e-5) for k in range(c[1]))
            r["fit"] = int(good)
    return r


def check(ctx):
    import lingam
    ctx.design("MCTimeSeries", "CONSTANTS W = {0, 1, 2}\nW1 = {0, 1}\nWO = {0, 1}\nE = {0, 1}\nTMax = %d\nSPECIFICATION Spec\nINVARIANTS StructuralLags StructuralErrors ResidualsAreMixedErrors StructuralEquation\n" % ctx.n(2, 3))
    tr = pmap(one, [(ctx.seed, 17, i) for i in range(ctx.n(1500, 6000))], chunk=8)
    ml = pmap(mle, [(ctx.seed, 170, i) for i in range(ctx.n(48, 160))])
    ctx.cover["skipped_overflow"] = sum(t is None for t in tr + ml)
    traces = [t for t in tr + ml if t is not None]
    ctx.judge("TimeSeriesTrace", "SPECIFICATION Spec\n", traces, "time-series-structure")
    X = np.random.default_rng(1).normal(size=(20, 2))
    for mk in (lambda: lingam.VARLiNGAM(lingam_model=object()), lambda: lingam.VARMALiNGAM(lingam_model="x")):
        o = observe(lambda: mk().fit(X))
        if o[:2] != ("err", "ValueError"):
            ctx.fail("lingam_model without the LiNGAM interface accepted", {"got": str(o)[:80]})
    for k in ("var", "varma"):
        for s in ("given", "estimated"):
            ctx.cover["%s_%s" % (k, s)] = sum(t["cls"] == k and t["src"] == s for t in traces)
    ctx.cover["pruned"] = sum(t["prune"] for t in traces)
    ctx.cover["rule"] = "integer series of 1..4 variables, up to 4 lags, given and estimated coefficients, all criteria, pruned and not, stub and default LiNGAM"
    t = dict(traces[0]); t["X"] = t["X"][:3]; t["R"] = t["R"][:3]
    ctx.sample(t)
