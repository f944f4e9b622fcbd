"""CausalBasedSimulator: histories of trainings and runs."""
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin, ClassifierMixin
from .common import *

HAD = np.array([[1]])
for _ in range(3):
    HAD = np.block([[HAD, HAD], [HAD, -HAD]])


class Fixed(RegressorMixin, BaseEstimator):
    """regression with integer coefficients chosen beforehand (fit learns nothing)"""

    def __init__(self, coef=None, b=0):
        self.coef, self.b = coef, b

    def fit(self, X, y):
        self.fitted_ = True
        return self

    def predict(self, X):
        assert self.fitted_
        return np.asarray(X, float) @ np.asarray(self.coef, float) + self.b


class FixedClass(ClassifierMixin, BaseEstimator):
    def __init__(self, coef=None, b=0):
        self.coef, self.b = coef, b

    def fit(self, X, y):
        self.fitted_ = True
        self.classes_ = np.array([0, 1])
        return self

    def predict(self, X):
        return (np.asarray(X, float) @ np.asarray(self.coef, float) + self.b >= 0).astype(int)

    def predict_proba(self, X):
        p = self.predict(X)
        return np.stack([1 - p, p], 1)


def dag(rng, n):
    p = rng.permutation(n)
    return np.tril(rng.choice([-2, -1, 0, 0, 1, 2], (n, n)), -1)[np.ix_(p, p)], np.argsort(p)


def make_train(rng, sim, algo, invalid):
    """one training request: returns the recorded operation and what runs need"""
    import pandas as pd
    lags = int(rng.integers(1, 3)) if algo == "VARLiNGAM" else 0
    nf = int(rng.integers(2, 4)) if lags else int(rng.integers(2, 6))
    n = nf * (lags + 1)
    B0, order = dag(rng, nf)
    exact = lags == 0 and rng.random() < .4        # data on which least squares is exact
    cyc = rng.random() < .06
    if cyc:
        a, b = rng.choice(nf, 2, replace=False)
        B0[a, b], B0[b, a] = 1, 2
        exact = False
    w = np.zeros((n, n), int)
    w[:nf, :nf] = B0
    if lags:
        w[:nf, nf:] = rng.choice([-1, 0, 0, 0, 1, 2], (nf, n - nf))
    if rng.random() < .25 and nf > 2 and not cyc:   # coefficients that cancel
        k = order[-1]
        w[k, :nf] = 0
        w[k, order[0]], w[k, order[1]] = 2, -2
    bvec = rng.integers(-3, 4, n)
    disc = np.zeros(nf, bool)
    if not exact and rng.random() < .5:
        disc = rng.random(nf) < .4
    m = 8 if exact else int(rng.integers(3, 7)) + lags
    if exact:
        X = np.zeros((8, nf), int)
        cols = rng.permutation(7)[:nf] + 1
        for k in order:
            X[:, k] = X @ w[k, :nf] + bvec[k] + HAD[:, cols[k]] * int(rng.integers(1, 4))
    else:
        X = rng.integers(-4, 5, (m, nf))
        X[:, disc] = rng.integers(0, 2, (m, int(disc.sum())))
    bnames = [f"x{i}" if rng.random() < .5 else f"v {i}" for i in range(nf)]
    as_df = rng.random() < .5
    if not as_df:
        bnames = [str(i) for i in range(nf)]
    names = bnames if not lags else [b + ("[t]" if l == 0 else f"[t-{l}]") for l in range(lags + 1) for b in bnames]
    Xin = X.astype(float) if rng.random() < .8 else X.copy()
    if as_df:
        Xin = pd.DataFrame(Xin, columns=bnames)
    D = np.tile(disc, lags + 1)
    par = [[q for q in range(n) if w[v, q]] for v in range(n)]
    models = {}
    if not exact:
        for v in range(n):
            if par[v]:
                models[names[v]] = (FixedClass if D[v] else Fixed)(coef=w[v, par[v]].tolist(), b=int(bvec[v]))
    G = w.astype(float) * .3
    if lags:
        G = np.stack([G[:nf, l * nf:(l + 1) * nf] for l in range(lags + 1)])
    elif algo == "BottomUpParceLiNGAM":
        z = np.argwhere((w == 0) & (w.T == 0) & ~np.eye(n, dtype=bool))
        for a, b in z[rng.random(len(z)) < .3]:
            G[a, b] = G[b, a] = np.nan
    gin = G.tolist() if rng.random() < .2 and algo != "BottomUpParceLiNGAM" else G.copy()
    kw = {"cd_algo_name": None if algo == "DirectLiNGAM" and rng.random() < .5 else algo}
    if models or rng.random() < .5:
        kw["models"] = models
    if disc.any() or rng.random() < .3:
        kw["is_discrete"] = disc.tolist()
    if invalid:
        how = int(rng.integers(6))
        if how == 0:
            kw["cd_algo_name"] = "NoSuchLiNGAM"
        elif how == 1:
            gin = np.zeros((nf + 1, nf + 1))
        elif how == 2:
            kw["models"] = {"nobody": Fixed(coef=[1])}
        elif how == 3:
            kw["models"] = {names[0]: object()}
        elif how == 4:
            kw["models"] = {names[0]: Fixed(coef=[1]) if D[0] else FixedClass(coef=[1])}
        else:
            gin = np.ones((nf, nf)) - np.eye(nf)
            if lags:
                gin = np.stack([gin] * (lags + 1))
    X0, g0 = np.array(Xin, float), np.array(gin, float)
    o = observe(lambda: sim.train(Xin, gin, **kw))
    op = {"op": "train", "valid": not invalid, "X": X.tolist(), "lags": lags, "par": [[q + 1 for q in p] for p in par],
          "w": w.tolist(), "b": bvec.tolist(), "disc": D.tolist(), "algo": algo, "names": [[]] * n, "resid": [[]] * n,
          "out": "ok" if o[0] == "ok" else o[1], "msg": "" if o[0] == "ok" else o[2],
          "mutated": bool(not np.array_equal(np.array(Xin, float), X0) or not np.array_equal(np.array(gin, float), g0, equal_nan=True))}
    if o[0] == "ok" and not invalid:
        tr = sim.train_result_
        op["names"] = [[names.index(q) + 1 if q in names else 0 for q in tr[nm]["parent_names"]] if nm in tr else [-1] for nm in names]
        if set(tr) != set(names):
            op["names"] = [[-1]] * n
        res = []
        for nm, d in zip(names, D):
            r = tr[nm]["residual"] if nm in tr else None
            r = None if r is None else imat(np.asarray(r, float).reshape(1, -1))
            res.append(r[0] if r else [])
        op["resid"] = res
    return op, {"names": names, "n": n, "D": D, "rows": m - lags, "w": w, "par": par}


def make_run(rng, sim, info, invalid):
    names, n, D, rows = info["names"], info["n"], info["D"], info["rows"]
    kw, op = {}, {"op": "run", "valid": not invalid, "exog": [], "fix": [], "chg": [], "shuf": False, "same": True}
    keep = []
    if rng.random() < .5:
        ex = {}
        for v in range(n):
            if not D[v] and rng.random() < .4:
                e = rng.integers(-9, 10, rows)
                form = int(rng.integers(4))
                val = [e.astype(float), e, e.tolist(), e.reshape(-1, 1).astype(float)][form]
                ex[names[v]] = val
                keep.append((val, np.array(val)))
                op["exog"].append({"v": v + 1, "e": e.tolist()})
        kw["changing_exog"] = ex
    if rng.random() < .6:
        cm = {}
        for v in range(n):
            if rng.random() < .4:
                k = int(rng.integers(0, min(3, n - 1) + 1))
                ps = [int(q) for q in rng.choice([q for q in range(n) if q != v], k, replace=False)]
                if rng.random() < .5:      # stay acyclic: keep the causes, or drop some
                    ps = [q for q in info["par"][v] if rng.random() < .7]
                    ps = [ps[i] for i in rng.permutation(len(ps))]
                coef = rng.integers(-2, 3, len(ps))
                bb = 0
                d = {"parent_names": [names[q] for q in ps]}
                if ps:
                    if rng.random() < .6:
                        d["coef"] = coef.tolist() if rng.random() < .5 else coef.astype(float)
                    else:
                        bb = int(rng.integers(-3, 4))
                        d["model"] = (FixedClass if D[v] else Fixed)(coef=coef.tolist(), b=bb).fit(None, None)
                cm[names[v]] = d
                wr = np.zeros(n, int)
                wr[ps] = coef
                op["chg"].append({"v": v + 1, "par": [q + 1 for q in ps], "w": wr.tolist(), "b": bb})
        kw["changing_models"] = cm
    if rng.random() < .35:
        kw["shuffle_residual"] = op["shuf"] = True
        kw["random_state"] = int(rng.integers(1000))
    if invalid:
        kw = [{"changing_exog": {"nobody": np.zeros(rows)}}, {"changing_exog": {names[0]: np.zeros(rows + 1)}},
              {"changing_models": {"nobody": {"parent_names": []}}}, {"changing_models": {names[0]: {"parent_names": ["nobody"], "coef": [1]}}},
              {"changing_models": {names[0]: {"parent_names": [names[1]], "coef": [1, 2]}}},
              {"changing_models": {names[0]: {"coef": [1]}}}, {"changing_exog": [1]},
              {"changing_models": {names[0]: {"parent_names": [names[1]]}}},
              {"changing_models": {names[0]: {"parent_names": [names[1]], "model": object()}}}][int(rng.integers(9))]
        op["exog"], op["chg"], op["shuf"] = [], [], False
    o = observe(lambda: sim.run(**kw))
    op["out"] = "ok" if o[0] == "ok" else o[1]
    op["msg"] = "" if o[0] == "ok" else o[2]
    op["sim"] = []
    op["perm"] = False
    if o[0] == "ok" and not invalid:
        df = o[1]
        try:
            S = imat(np.array(df[names], dtype=float).T)
            ok = list(df.columns) == list(names)
        except Exception:
            S, ok = None, False
        op["sim"] = S if S is not None and ok else []
        if op["shuf"] or rng.random() < .1:
            o2 = observe(lambda: sim.run(**kw))
            op["same"] = bool(o2[0] == "ok" and np.array_equal(np.array(o2[1], float), np.array(df, float)))
    op["mutated"] = any(not np.array_equal(np.array(a), b) for a, b in keep)
    return op


def one(seed):
    import lingam
    rng = np.random.default_rng(seed)
    sim = lingam.CausalBasedSimulator()
    ops, info = [], None
    if rng.random() < .1:
        o = observe(lambda: sim.run())
        ops.append({"op": "run", "valid": True, "exog": [], "fix": [], "chg": [], "shuf": False, "same": True, "sim": [],
                    "mutated": False, "out": "ok" if o[0] == "ok" else o[1], "msg": str(o)[:80]})
    for t in range(int(rng.integers(1, 3))):
        algo = str(rng.choice(["DirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM", "VARLiNGAM"]))
        op, i2 = make_train(rng, sim, algo, rng.random() < .12)
        ops.append(op)
        if op["out"] == "ok" and op["valid"]:
            info = i2
        elif op["out"] == "ok":
            break
        if info:
            for _ in range(int(rng.integers(1, 4))):
                ops.append(make_run(rng, sim, info, rng.random() < .1))
    return {"ops": ops, "seed": list(seed)}


def check(ctx):
    ctx.design("MCSimulator", "CONSTANTS NVar = 3\nSPECIFICATION Spec\nINVARIANTS SolvedAtEnd Locality NeverStuck OnlyAcyclicFinish\n")
    traces = pmap(one, [(ctx.seed, 14, i) for i in range(ctx.n(2500, 9000))], chunk=20)
    ctx.judge("SimulatorTrace", "SPECIFICATION Spec\n", traces, "simulator")
    runs = [o for t in traces for o in t["ops"] if o["op"] == "run"]
    ctx.sample(traces[0])
    ctx.cover["runs"] = len(runs)
    ctx.cover["changed_models"] = sum(bool(o["chg"]) and o["out"] == "ok" for o in runs)
    ctx.cover["shuffled"] = sum(o["shuf"] and o["out"] == "ok" for o in runs)
    ctx.cover["cyclic_rejected"] = sum(o["out"] == "ValueError" and o["valid"] for o in runs)
    ctx.cover["rule"] = ("random histories of trainings and runs; integer models (fixed-coefficient estimators, or data on which least "
                         "squares is exact), all four graph kinds, discrete variables, changed errors, changed causes, shuffled errors, unusable requests")
