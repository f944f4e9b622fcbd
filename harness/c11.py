"""Bootstrap replicates: every stored graph is the fit of a resample of the data."""
import numpy as np
from .common import *
from . import oracles as O

FAMS = ["DirectLiNGAM", "ICALiNGAM", "RESIT", "Parce", "RCD", "MultiDirect", "MultiRCD", "Longitudinal", "VAR", "VARMA", "HighDim"]


def rows_of(Z, X):
    """1-based position in X of every row of Z, 0 if none"""
    out = []
    for z in np.asarray(Z, float):
        d = np.max(np.abs(X - z), axis=1) / (1e-12 + np.max(np.abs(X)))
        k = int(np.argmin(d))
        out.append(k + 1 if d[k] < 1e-7 else 0)
    return out


def effects(B):
    """sum over simple paths of products of coefficients, NaN treated as no edge"""
    A = np.nan_to_num(np.asarray(B, float))
    n = len(A)
    if not cyclic(A):
        return np.linalg.inv(np.eye(n) - A) - np.eye(n)
    out = np.zeros((n, n))

    def walk(src, v, prod, seen):
        for w in range(n):
            if A[w, v] != 0 and w not in seen:
                out[w, src] += prod * A[w, v]
                walk(src, w, prod * A[w, v], seen | {w})
    for v in range(n):
        walk(v, v, 1.0, {v})
    return out


def cyclic(B):
    A = (np.nan_to_num(np.asarray(B, float)) != 0).astype(int)
    P = np.eye(len(A), dtype=int)
    for _ in range(len(A)):
        P = ((P @ A) > 0).astype(int)
        if np.trace(P):
            return True
    return False


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-8, equal_nan=True)


def spy(cls):
    class Spy(cls):
        def fit(self, X, *a, **k):
            self.__dict__.setdefault("seen__", [])
            data = [np.array(x, float) for x in X] if isinstance(X, list) or np.ndim(X) == 3 else np.array(X, float)
            r = super().fit(X, *a, **k)
            self.seen__.append((data, self.snap__()))
            return r

        def snap__(self):
            d = {}
            for a in ("adjacency_matrix_", "adjacency_matrices_", "causal_order_", "causal_orders_", "ancestors_list_", "residuals_"):
                try:
                    v = getattr(self, a)
                    import copy
                    d[a] = copy.deepcopy(v)
                except Exception:
                    pass
            return d
    return Spy


class NoReg:
    def fit(self, X, y):
        self.c, _, self.b = O.ols(X, y)
        return self

    def predict(self, X):
        return np.asarray(X) @ self.c + self.b


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    fam = FAMS[seed[-1] % len(FAMS)]
    n = int(rng.integers(2, 4))
    m = int(rng.integers(18, 32))
    wide = fam in ("DirectLiNGAM", "ICALiNGAM", "HighDim", "MultiDirect", "VAR", "VARMA", "Longitudinal") and rng.random() < .25
    if wide:
        n = int(rng.integers(4, 7 if fam != "Longitudinal" else 5))
        m += 6 * n
    k = 30 if fam not in ("VARMA", "HighDim") else 30
    np.random.seed(int(rng.integers(1 << 30)))
    r = {"fam": fam, "n": n, "m": m, "k": k, "wide": int(wide), "seed": list(seed), "mode": "separate", "reps": [], "seen": 1, "rows": [], "src": []}
    gen = lambda m: O.sem(rng, n, m, dens=.8, scale=True)[0]
    if fam in ("DirectLiNGAM", "ICALiNGAM", "RESIT", "Parce", "RCD", "HighDim"):
        cls, kw = {"DirectLiNGAM": (lingam.DirectLiNGAM, {}), "ICALiNGAM": (lingam.ICALiNGAM, {"random_state": 3}),
                   "HighDim": (lingam.HighDimDirectLiNGAM, {}),
                   "RESIT": (lingam.RESIT, {"regressor": NoReg(), "alpha": .2}),
                   "Parce": (lingam.BottomUpParceLiNGAM, {"alpha": float(rng.choice([.01, .3]))}),
                   "RCD": (lingam.RCD, {"cor_alpha": .3, "ind_alpha": float(rng.choice([.01, .2])), "shapiro_alpha": .9})}[fam]
        if fam == "ICALiNGAM":
            kw["max_iter"] = 100
        X = gen(m)
        r["rows"], r["src"] = [m], [m]
        M = spy(cls)(**kw)
        o = observe(lambda: M.bootstrap(X.copy(), n_sampling=k))
        groups = lambda d: [d]
        orig = [X]
    elif fam in ("MultiDirect", "MultiRCD"):
        G = 2 if rng.random() < .5 else 3
        orig = [gen(m if rng.random() < .6 else m + 3) for _ in range(G)]
        if fam == "MultiDirect":
            cls, kw = lingam.MultiGroupDirectLiNGAM, {}
        else:
            cls, kw = lingam.MultiGroupRCD, {"cor_alpha": .3, "shapiro_alpha": .9, "ind_alpha": .05}
        r["rows"] = r["src"] = [len(X) for X in orig]
        M = spy(cls)(**kw)
        o = observe(lambda: M.bootstrap([X.copy() for X in orig], n_sampling=k))
        groups = lambda d: list(d)
    elif fam == "Longitudinal":
        T = int(rng.integers(2, 6))
        m = r["m"] = m + 20 * max(T - 2, 1)
        orig = [gen(m)]
        for _ in range(T - 1):
            orig.append(gen(m) + .6 * orig[-1])
        kw = {"n_lags": int(rng.integers(1, T))}
        cls = lingam.LongitudinalLiNGAM
        r["rows"] = r["src"] = [m] * T
        r["mode"] = "common"
        M = spy(cls)(**kw)
        o = observe(lambda: M.bootstrap([X.copy() for X in orig], n_sampling=k))
        groups = lambda d: [d[t] for t in range(len(d))]
    else:
        lag = int(rng.integers(1, 3 if rng.random() < .7 else 5))
        m = r["m"] = m + 30
        E = rng.laplace(0, 1, (m, n)) if rng.random() < .5 else rng.exponential(1, (m, n)) - 1
        A = [np.diag(rng.uniform(-.4, .4, n)) + .1 * rng.standard_normal((n, n)) / lag for _ in range(lag)]
        X = np.zeros((m, n))
        for t in range(m):
            X[t] = E[t] + sum(A[s] @ X[t - s - 1] for s in range(lag) if t - s - 1 >= 0)
        if fam == "VAR":
            cls, kw = lingam.VARLiNGAM, {"lags": lag, "criterion": None, "prune": bool(rng.random() < .5), "random_state": 1}
            if rng.random() < .3:
                kw["ar_coefs"] = np.array(A)
        else:
            q = int(rng.integers(1, 3))
            cls, kw = lingam.VARMALiNGAM, {"order": (lag, q), "criterion": None, "prune": bool(rng.random() < .5), "random_state": 1,
                                          "ar_coefs": np.array(A), "ma_coefs": np.array([.2 * rng.standard_normal((n, n)) for _ in range(q)])}
        M = spy(cls)(**kw)
        import contextlib, os
        o = observe(lambda: M.bootstrap(X.copy(), n_sampling=k))
        orig = [X]
        r["rows"] = [m]
    r["kw"] = {a: str(b)[:60] for a, b in kw.items()}
    if o[0] == "err":
        r["out"], r["msg"] = o[1], o[2]
        r["src"] = r["src"] or r["rows"]
        last = M.__dict__.get("seen__", [])
        if fam in ("RCD", "MultiRCD") and o[1] == "ValueError" and last:
            mats = last[-1][1].get("adjacency_matrices_", [last[-1][1].get("adjacency_matrix_")])
            if any(cyclic(A) for A in mats):
                r["out"], r["seen"] = "ok", 0      # total effects of a cyclic graph are refused (C08)
        return r
    r["out"] = "ok"
    try:
        res = o[1]
        seen = M.__dict__.get("seen__", [])
        first = None
        if fam in ("VAR", "VARMA"):
            r["src"] = r["rows"]
            if len(seen) != k + 1:
                r["seen"] = 0
                return r
            first, seen = seen[0], seen[1:]
            if not close(first[0], orig[0]):
                r["out"] = "first-fit-not-on-the-data"
                return r
            resid = np.asarray(first[1]["residuals_"], float)
            r["src"] = [len(resid)]
        if len(seen) != k:
            r["seen"] = 0
            return r
        rl = res if isinstance(res, list) else [res]
        ams = [np.asarray(x.adjacency_matrices_, float) for x in rl]
        tes = [np.asarray(x.total_effects_, float) for x in rl]
        if any(len(a) != k for a in ams + tes):
            r["out"] = "wrong-number-of-replicates"
            return r
        for i, (data, snap) in enumerate(seen):
            e = {"same": 1, "te": 1}
            # which rows
            if fam in ("VAR", "VARMA"):
                Z = data
                ar = kw.get("ar_coefs")
                if ar is None:
                    L = np.hstack([orig[0][lag - s - 1:len(orig[0]) - s - 1] for s in range(lag)])
                    W = np.linalg.lstsq(L, orig[0][lag:], rcond=None)[0].T
                    ar = [W[:, s * n:(s + 1) * n] for s in range(lag)]
                ma = kw.get("ma_coefs", [])
                head = max(lag, len(ma))
                inn = np.zeros_like(Z)
                for t in range(len(Z)):
                    inn[t] = Z[t] if t < head else Z[t] - sum(ar[s] @ Z[t - s - 1] for s in range(lag)) - sum(ma[s] @ inn[t - s - 1] for s in range(len(ma)))
                e["idx"] = [rows_of(inn, resid)]
            else:
                e["idx"] = [rows_of(d, x) for d, x in zip(groups(data), orig)]
            # stored graphs = fit of exactly these data by a fresh estimator
            if fam == "VARMA":
                psi, om = snap["adjacency_matrices_"]
                fit_am = [np.concatenate([*psi, *om], axis=1)]
            else:
                F = cls(**kw)
                f = observe(lambda: F.fit([g.copy() for g in groups(data)] if fam in ("MultiDirect", "MultiRCD", "Longitudinal") else data.copy()))
                if f[0] == "err":
                    e["same"] = 0
                    r["reps"].append(e)
                    continue
                if fam == "VAR":
                    fit_am = [np.concatenate([*F.adjacency_matrices_], axis=1)]
                elif fam in ("MultiDirect", "MultiRCD"):
                    fit_am = list(F.adjacency_matrices_)
                elif fam == "Longitudinal":
                    fit_am = [np.asarray(F.adjacency_matrices_, float)]
                else:
                    fit_am = [F.adjacency_matrix_]
            e["same"] = int(len(fit_am) == len(ams) and all(close(a[i], b) for a, b in zip(ams, fit_am)))
            if fam in ("DirectLiNGAM", "ICALiNGAM", "RESIT", "HighDim") and e["same"]:
                ix = rl[0].resampled_indices_
                e["same"] = int(ix is not None and len(ix) == k and close(orig[0][np.asarray(ix[i])], data))
            # total effects
            for A, E_ in zip(ams, tes):
                if fam in ("Longitudinal",):
                    p, T, nl = n, len(orig), kw["n_lags"]
                    Bx = np.zeros((T * p, T * p))
                    for t in range(T):
                        for l in range(nl + 1):
                            if t - l >= 0 and l < A.shape[2]:
                                Bx[t * p:(t + 1) * p, (t - l) * p:(t - l + 1) * p] = np.nan_to_num(A[i][t][l])
                    ref = effects(Bx)
                    ref[:, :max(1, nl) * p] = 0
                    ok = close(E_[i], ref)
                elif fam in ("VAR", "VARMA"):
                    ref = ref_var_effects(A[i], n, lag)
                    ok = close(E_[i], ref)
                else:
                    ref = effects(A[i])
                    if fam == "Parce":
                        nanrow = np.isnan(A[i]).any(axis=1)
                        order = [v for b in snap["causal_order_"] for v in (list(b) if hasattr(b, "__iter__") else [b])]
                        for f_ in range(n):
                            for t_ in range(n):
                                if nanrow[f_] and f_ != t_ and not nanrow[t_] and order.index(f_) < order.index(t_):
                                    ref[t_, f_] = np.nan
                    if fam in ("RCD", "MultiRCD"):
                        anc = snap["ancestors_list_"]
                        nanrow = np.isnan(A[i]).any(axis=1)
                        for f_ in range(n):
                            for t_ in range(n):
                                if f_ not in anc[t_]:
                                    ref[t_, f_] = 0
                                elif nanrow[f_]:
                                    ref[t_, f_] = np.nan if fam == "RCD" else 0
                    ok = close(E_[i], ref)
                e["te"] &= int(ok)
            r["reps"].append(e)
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
        r["msg"] = str(e)[:300] + " " + _w(e)
    return r


def _w(e):
    import traceback
    t = traceback.extract_tb(e.__traceback__)[-1]
    return "%s:%d" % (t.filename, t.lineno)


def ref_var_effects(am, n, p):
    """column block 0: paths within the same time; block l: one effect of lag l followed by paths
    within the same time (the queries of VAR/VARMA models over the fitted graph)"""
    B0 = am[:, :n]
    T0 = effects(B0)
    out = [T0]
    for l in range(p):
        out.append((np.eye(n) + T0) @ am[:, n * (l + 1):n * (l + 2)])
    return np.concatenate(out, axis=1)


BADK = [0, -3, 2.5, "3"]


def errs(seed):
    rng = np.random.default_rng(seed)
    import lingam
    bad = []
    X = O.sem(rng, 2, 20)[0]
    for name, call in (("DirectLiNGAM", lambda k: lingam.DirectLiNGAM().bootstrap(X, k)),
                       ("Parce", lambda k: lingam.BottomUpParceLiNGAM().bootstrap(X, k)),
                       ("RCD", lambda k: lingam.RCD().bootstrap(X, k)),
                       ("MultiDirect", lambda k: lingam.MultiGroupDirectLiNGAM().bootstrap([X, X], k)),
                       ("MultiRCD", lambda k: lingam.MultiGroupRCD().bootstrap([X, X], k))):
        for k in BADK:
            o = observe(lambda: call(k))
            if o[:2] != ("err", "ValueError"):
                bad.append((name, str(k), str(o)[:80]))
    return bad


def check(ctx):
    ctx.design("MCBootstrap", "CONSTANTS ROWS = 2\nK = %d\nSPECIFICATION Spec\nINVARIANTS OnePerReplicate EachIsADraw CommonRows\nPROPERTIES Frozen Terminates\n" % ctx.n(2, 3))
    traces = pmap(one, [(ctx.seed, 11, i) for i in range(ctx.n(15, 60) * len(FAMS))], chunk=1)
    ctx.judge("BootstrapTrace", "SPECIFICATION Spec\n", traces, "bootstrap",
              describe=lambda t: {k: t.get(k) for k in ("fam", "kw", "n", "m", "out", "msg", "seed")})
    for name, k, got in errs((ctx.seed, 11)):
        ctx.fail("n_sampling %s accepted by %s" % (k, name), {"got": got})
    for t in traces[:1]:
        ctx.sample({"fam": t["fam"], "rows": t["rows"], "first": t["reps"][:1]})
    ctx.cover["observed_fits"] = sum(len(t["reps"]) for t in traces)
    ctx.cover["not_observable"] = sum(1 - t["seen"] for t in traces)
    ctx.cover["rule"] = "eleven estimator families, 30 replicates each, rows recovered from the data passed to fit"
    ctx.assumptions.append("that every row is drawn and no two replicates coincide is a statement with probability > 1 - 1e-9 over the random draws")
