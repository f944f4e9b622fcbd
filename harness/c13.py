"""CausalEffect answers interventions exactly."""
from fractions import Fraction
import numpy as np
from .common import *


class Linear:
    def __init__(self, coef, b):
        self.coef_, self.intercept_ = np.asarray(coef, float), float(b)

    def predict(self, X):
        return np.asarray(X) @ self.coef_ + self.intercept_


class Square:
    def __init__(self, coef, b, w):
        self.c, self.b, self.w = np.asarray(coef, float), b, w

    def predict(self, X):
        X = np.asarray(X)
        return X @ self.c + self.b + self.w * X[:, 0] ** 2


class Proba:
    """two-class model: the prediction is P(class 0) - P(class 1)"""

    def __init__(self, coef, b):
        self.c, self.b = np.asarray(coef, float), b

    def predict_proba(self, X):
        z = (np.asarray(X) @ self.c + self.b) / 2
        return np.stack([.5 + z, .5 - z], 1)      # p0 - p1 = c x + b


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    n = int(rng.integers(2, 6))
    p = rng.permutation(n)
    B = np.tril(rng.choice([-2, -1, 0, 0, 1, 2], (n, n)), -1)[np.ix_(p, p)]
    p = np.argsort(p)      # p is now a causal order
    cyc = rng.random() < .1
    if cyc:
        a, b = rng.choice(n, 2, replace=False)
        B[a, b], B[b, a] = 1, 2
    if rng.random() < .3 and n > 2 and not cyc:      # cancelling coefficients
        k = p[-1]
        B[k] = 0
        B[k, p[0]], B[k, p[1]] = 2, -2
    mu, sd = rng.integers(-4, 5, n), rng.integers(1, 4, n)
    m = 2 * int(rng.integers(2, 6))
    X = np.stack([rng.permutation(np.r_[np.full(m // 2, mu[j] + sd[j]), np.full(m // 2, mu[j] - sd[j])]) for j in range(n)], 1).astype(float)
    if rng.random() < .2:
        X = X.astype(int)
    tgt = int(rng.integers(n))
    others = [v for v in range(n) if v != tgt]
    coef = rng.integers(-3, 4, n - 1)
    b0 = int(rng.integers(-5, 6))
    c = np.zeros(n, int)
    c[others] = coef
    kind = "effects" if rng.random() < .5 else "optimal"
    src = str(rng.choice(["array", "list", "model"])) if not cyc else "array"
    if src == "model":
        class M(lingam.DirectLiNGAM):
            adjacency_matrix_ = property(lambda s: B.astype(float))
            causal_order_ = property(lambda s: [int(v) for v in p])
        cm = M()
    else:
        cm = B.astype(float) if src == "array" else B.tolist()
    r = {"n": n, "B": B.tolist(), "mu": mu.tolist(), "sd": sd.tolist(), "c": c.tolist(), "b": b0, "s": others[0] + 1, "w": 0, "k": 1,
         "kind": kind, "src": src, "target": tgt + 1, "i": 1, "want": 0, "opt": [], "eff": [], "seed": list(seed)}
    np.random.seed(int(rng.integers(1 << 30)))
    CE = lingam.CausalEffect(cm)
    if kind == "effects":
        how = int(rng.integers(3))
        if how == 0:
            pm = Linear(coef, b0)
        elif how == 1:
            r["w"] = int(rng.integers(-2, 3))
            pm = Square(coef, b0, r["w"])
        else:
            pm = Proba(coef, b0)
        o = observe(lambda: CE.estimate_effects_on_prediction(X, tgt, pm))
        if o[0] == "ok":
            E = imat(o[1])
            r["eff"] = E if E is not None and len(E) == n and all(len(e) == 2 for e in E) else [[-1, -1]] * n
    else:
        i = int(rng.choice(others)) if rng.random() < .9 else tgt
        r["i"] = i + 1
        r["want"] = int(rng.integers(-20, 21))
        o = observe(lambda: CE.estimate_optimal_intervention(X, tgt, Linear(coef, b0), i, r["want"]))
        if o[0] == "ok" and np.isfinite(np.asarray(o[1], float)).all():
            v = float(np.asarray(o[1]).ravel()[0])
            f = Fraction(v).limit_denominator(20000)
            if abs(float(f) - v) < 1e-9 * max(1, abs(v)) and abs(f.numerator) < 1 << 30:
                r["opt"] = [f.numerator, f.denominator]
    r["out"] = "ok" if o[0] == "ok" else o[1]
    r["msg"] = "" if o[0] == "ok" else o[2]
    return r


def check(ctx):
    ctx.design("MCIntervention", "CONSTANTS K = 3\nW = {0, 1, 2}\nSPECIFICATION Spec\nINVARIANTS Solved Confluent Linear Progress\n")
    traces = pmap(one, [(ctx.seed, 13, i) for i in range(ctx.n(4000, 16000))], chunk=40)
    ctx.judge("InterventionTrace", "SPECIFICATION Spec\n", traces, "causal-effect")
    import lingam
    X = np.arange(12.0).reshape(6, 2)
    lin = Linear([1.0], 0)
    bad = [(np.zeros((2, 3)), lin), (np.zeros(4), lin), ("x", lin), ([[0, 1], [1, 0]], lin), (np.zeros((2, 2)), object())]
    for cm, pm in bad:
        o = observe(lambda: lingam.CausalEffect(cm).estimate_effects_on_prediction(X, 0, pm))
        if o[:2] != ("err", "ValueError"):
            ctx.fail("unusable model accepted", {"model": str(cm), "pred": str(pm), "got": str(o)[:80]})
    o = observe(lambda: lingam.CausalEffect(np.zeros((2, 2))).estimate_optimal_intervention(X, 0, Proba([1.0], 0), 1, 1.0))
    if o[:2] != ("err", "ValueError"):
        ctx.fail("non-linear predictor accepted for the optimal intervention", {"got": str(o)[:80]})
    ctx.sample(traces[0])
    ctx.cover["cyclic"] = sum(t["out"] == "ValueError" for t in traces)
    ctx.cover["rule"] = "integer models of 2..5 variables given as array, list or estimator, integer means and deviations, linear, squared and two-class predictors"
