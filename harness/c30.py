"""Requests outside the documented domain are refused, the others carried out."""
import numpy as np
from .common import *
from .c16 import quiet


class NoFit:
    def predict(self, X):
        return X[:, 0]


class NoPredict:
    def fit(self, X, y):
        return self


def series(rng, m, n):
    X = rng.laplace(size=(m, n))
    for j in range(1, n):
        X[:, j] += X[:, :j] @ rng.choice([0, 1, -.7], j)
    return X


def spoil(rng, X, v):
    X = X.copy()
    X[rng.integers(len(X)), rng.integers(X.shape[1])] = v
    return X


def know(rng, n, c):
    K = -np.ones((n, n), int)
    i, j = rng.permutation(n)[:2]
    if c == "usual":
        K[i, j] = 0
        if rng.random() < .5:
            K[j, i] = 1
    elif c == "both":
        K[i, j] = K[j, i] = 1
    elif c == "small":
        K = -np.ones([(n - 1, n - 1), (n, n - 1), (n + 1, n + 1)][rng.integers(3)], int)
    elif c == "nan":
        K = K.astype(float)
        K[i, j] = np.nan
    return K


def value(rng, kind, c, m, n):
    from sklearn.linear_model import LinearRegression
    small = float(rng.choice([.01, .05, .2]))
    if kind == "nonneg":
        return {"usual": small, "zero": 0, "large": 3.0, "neg": -float(rng.uniform(.1, 2)), "tinyneg": -1e-9}[c]
    if kind == "posint":
        return {"usual": 2, "one": 1, "zero": 0, "neg": -int(rng.integers(1, 4))}[c]
    if kind == "test":
        return {"usual": "hsic", "fcorr": "fcorr", "other": str(rng.choice(["lingam", "kci", "", "hsic "])), "upper": "HSIC"}[c]
    if kind == "width":
        return {"usual": "mdbs", "scott": "scott", "silverman": "silverman", "other": str(rng.choice(["X", "Scott", ""]))}[c]
    if kind == "model":
        return {"usual": LinearRegression(), "nofit": NoFit(), "nopredict": NoPredict(), "none": None}[c]
    if kind == "optmodel":
        return {"usual": None, "nofit": NoFit(), "nopredict": NoPredict(), "model": LinearRegression()}[c]
    if kind == "degree":
        return {"usual": 3, "three": int(rng.integers(4, 6)), "two": 2, "neg": -int(rng.integers(0, 4)), "real": float(rng.choice([3.0, 4.5]))}[c]
    if kind == "moment":
        return {"usual": 4, "one": int(rng.integers(1, 4)), "zero": 0, "neg": -int(rng.integers(1, 4)), "real": float(rng.choice([3.0, 4.5]))}[c]
    if kind == "share":
        return {"usual": .5, "zero": 0, "one": 1, "above": float(rng.choice([1.0001, 2])), "neg": float(rng.choice([-1e-6, -1])), "text": "0.5"}[c]
    if kind == "flag":
        return {"usual": True, "off": False, "number": int(rng.integers(0, 3))}[c]
    if kind in ("know", "softknow"):
        return know(rng, n, c) if c != "usual" or rng.random() < .7 else know(rng, n, c).tolist()
    if kind == "data":
        X = series(rng, m, n)
        if c == "frame":
            import pandas as pd
            return pd.DataFrame(X, columns=[f"v{k}" for k in range(n)], index=rng.permutation(m))
        return {"usual": X, "nested": X.tolist(), "nan": spoil(rng, X, np.nan), "inf": spoil(rng, X, [np.inf, -np.inf][rng.integers(2)]), "flat": X[:, 0], "cube": X[None],
                "empty": X[:0], "text": np.where(rng.random(X.shape) < .1, "a", X.astype(str)).tolist()}[c]
    if kind in ("groups", "times", "twotimes"):
        L = [series(rng, m, n) for _ in range(3 if c == "three" else 2)]
        k = int(rng.integers(2))
        if c in ("uneven", "lengths"):
            L[k] = L[k][:m - 5]
        elif c == "widths":
            k = int(rng.integers(len(L)))
            L[k] = L[k][:, :n - 1] if rng.random() < .5 else np.hstack([L[k], series(rng, len(L[k]), 1)])
        elif c == "nan":
            L[k] = spoil(rng, L[k], np.nan)
        elif c == "tuple":
            L = tuple(L)
        elif c == "single":
            L = L[:1]
        elif c in ("array", "stacked"):
            L = np.array(L)
        elif c == "none":
            L = None
        return L
    if kind == "draws":
        return {"usual": 2, "one": np.int64(1), "zero": 0, "neg": -int(rng.integers(1, 4)), "real": 2.0, "text": "2"}[c]
    if kind == "inner":
        import lingam
        return {"usual": None, "given": lingam.ICALiNGAM(max_iter=30), "other": [lingam.DirectLiNGAM, 1, "DirectLiNGAM", NoFit()][rng.integers(4)]}[c]
    if kind == "tensor":
        T = -np.ones((2, 2, n, n), int)
        return {"usual": None, "free": T, "flat": T[0, 0], "times": -np.ones((5, 2, n, n), int), "width": [T[..., :n - 1], T[..., :n - 1, :], np.concatenate([T, T[..., :1]], -1)][rng.integers(3)]}[c]
    if kind == "least":
        return {"usual": None, "positive": float(rng.choice([1e-9, .1, 5])), "zero": 0, "neg": -float(rng.choice([1e-9, .5]))}[c]
    if kind == "most":
        return {"usual": None, "one": 1, "many": int(rng.integers(5, 50)), "numpy": np.int64(2), "zero": 0, "neg": -int(rng.integers(1, 4)), "real": 2.0, "text": "2"}[c]
    raise KeyError(kind)


class Half:
    """a model with one of the two attributes of a linear one"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def predict(self, X):
        return np.zeros(len(X))


def trained(est, k=1):
    r = np.random.default_rng(5)
    X = r.normal(size=(30, k))
    return est.fit(X, X[:, 0] + r.normal(size=30)) if not hasattr(est, "classes_") and est.__class__.__name__ not in CLASSIFIERS else est.fit(X, r.permutation(np.arange(30) % 2))


CLASSIFIERS = ("LogisticRegression", "LinearSVC", "DecisionTreeClassifier")


def value2(rng, op, kind, c, n):
    """values of the parameters of the other operations, over n variables a, b, c (a -> b -> c)"""
    import pandas as pd
    from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
    from sklearn.svm import LinearSVC
    from sklearn.tree import DecisionTreeRegressor
    from sklearn.pipeline import make_pipeline
    from sklearn.model_selection import GridSearchCV
    from sklearn.preprocessing import StandardScaler
    N = list("abc")
    M = len(frame())
    tgt = str(rng.choice(["b", "c"]))
    if kind == "algo":
        return {"usual": "DirectLiNGAM", "none": None, "ica": "ICALiNGAM", "other": str(rng.choice(["RCD", "direct", ""])), "number": 3}[c]
    if kind == "learners":
        return {"usual": None, "named": {tgt: Ridge()}, "pipeline": {tgt: make_pipeline(StandardScaler(), LinearRegression())}, "search": {tgt: GridSearchCV(Ridge(), {"alpha": [.1, 1]}, cv=2)},
                "list": [LinearRegression()], "unknown": {"z": LinearRegression()}, "classifier": {tgt: LogisticRegression()},
                "pipeclass": {tgt: make_pipeline(StandardScaler(), LogisticRegression())}, "searchclass": {tgt: GridSearchCV(LogisticRegression(), {"C": [1, 2]}, cv=2)},
                "transformer": {tgt: StandardScaler()}}[c]
    if kind == "judges":
        return {"usual": None, "named": {"c": LogisticRegression(C=.5)}, "pipeline": {"c": make_pipeline(StandardScaler(), LogisticRegression())},
                "search": {"c": GridSearchCV(LogisticRegression(), {"C": [1, 2]}, cv=2)}, "regressor": {"c": LinearRegression()},
                "pipereg": {"c": make_pipeline(StandardScaler(), LinearRegression())}, "searchreg": {"c": GridSearchCV(Ridge(), {"alpha": [1, 2]}, cv=2)}, "noproba": {"c": LinearSVC()}}[c]
    if kind == "noises":
        v = lambda k: rng.normal(size=k)
        return {"usual": None, "one": {tgt: v(M)}, "all": {k: v(M).tolist() for k in N}, "list": [v(M)], "unknown": {"z": v(M)}, "short": {tgt: v(M - 1)}, "long": {tgt: v(M + 1)},
                "nan": {tgt: np.r_[v(M - 1), np.nan]}}[c]
    if kind == "changes":
        P = ["a"]
        return {"usual": None, "coef": {tgt: {"parent_names": P, "coef": [2.]}}, "model": {tgt: {"parent_names": P, "model": trained(LinearRegression())}}, "cut": {tgt: {"parent_names": []}},
                "list": [{"name": tgt, "parent_names": P, "coef": [1.]}], "bare": {tgt: [1.]}, "numbered": {1: {"parent_names": P, "coef": [1.]}}, "unknown": {"z": {"parent_names": P, "coef": [1.]}},
                "noparents": {tgt: {"coef": [1.]}}, "tuple": {tgt: {"parent_names": ("a",), "coef": [1.]}}, "unknownparent": {tgt: {"parent_names": ["z"], "coef": [1.]}},
                "nothing": {tgt: {"parent_names": P}}, "fewcoef": {"c": {"parent_names": ["a", "b"], "coef": [1.]}}, "manycoef": {tgt: {"parent_names": P, "coef": [1., 2.]}},
                "nomodel": {tgt: {"parent_names": P, "model": None}}, "classifier": {tgt: {"parent_names": P, "model": trained(LogisticRegression())}}}[c]
    B = np.array([[0, 0, 0], [1.5, 0, 0], [.5, -1, 0]])
    if kind == "graph":
        import lingam
        C = B.copy()
        C[0, 1] = .7
        fitted = None
        if c == "fitted":
            fitted = lingam.DirectLiNGAM().fit(frame().to_numpy())
        return {"usual": B, "frame": pd.DataFrame(B), "nested": B.tolist(), "fitted": fitted, "cube": B[None], "rect": B[:2], "cyclic": C, "none": None, "text": "DirectLiNGAM"}[c]
    if kind == "predictor":
        return {"usual": trained(LinearRegression(), 2), "logistic": trained(LogisticRegression(), 2), "tree": trained(DecisionTreeRegressor(), 2), "nopredict": NoPredict()}[c]
    if kind == "linear":
        return {"usual": trained(LinearRegression(), 2), "ridge": trained(Ridge(), 2), "logistic": trained(LogisticRegression(), 2), "tree": trained(DecisionTreeRegressor(), 2),
                "onlycoef": Half(coef_=np.ones(2)), "onlyintercept": Half(intercept_=0.)}[c]
    if kind == "frame":
        X = frame()
        Z = X.copy()
        Z.iloc[3, 1] = np.nan
        return {"usual": X, "array": X.to_numpy(), "onecolumn": X[["a"]], "nan": Z}[c]
    if kind == "regressor":
        return {"usual": None, "given": Ridge(), "classifier": LogisticRegression()}[c]
    if kind == "settings":
        k = "b"
        return {"usual": None, "one": {k: rng.normal(size=M)}, "list": [rng.normal(size=M)], "numbered": {0: rng.normal(size=M)}, "unknown": {"z": rng.normal(size=M)}, "short": {k: rng.normal(size=M - 1)}}[c]
    if kind == "callback":
        return {"usual": None, "given": given, "number": 3, "raising": raising}[c]
    if kind in ("square", "rooted"):
        C = B.copy()
        C[0, 1] = .7
        H = B.copy()
        H[2, 0] = np.nan
        return {"usual": B, "frame": pd.DataFrame(B), "rect": B[:2] if rng.random() < .5 else B[:, :2], "scalar": 1.5, "noroot": C, "nan": H}[c]
    if kind == "limit":
        return {"usual": None, "one": 1, "many": 9, "zero": 0, "neg": -2, "real": 1.5}[c]
    if kind == "depth":
        return {"usual": None, "zero": 0, "many": 9, "neg": -1, "real": 1.0}[c]
    if kind == "ends":
        return {"usual": (0, 1), "last": (np.int64(1), np.int64(2)), "back": (2, 0), "same": (1, 1), "fromover": (3, 1), "toover": (1, 3), "neg": [(-1, 1), (0, -1)][rng.integers(2)], "real": (0., 1)}[c]
    if kind == "kindsof":
        return {"usual": None, "all": [True] * 3, "cause": [False, True, True], "effect": [True, False, False], "middle": [True, False, False], "short": [True, True]}[c]
    if kind == "ordinal":
        return {"usual": None, "flags": [0, 0, 0], "short": [0, 0], "long": [0] * 4}[c]
    if kind == "sample":
        X = frame()
        return {"usual": X.to_numpy(), "frame": X, "widths": X.to_numpy()[:, [0, 1, 2, 0][:[2, 4][rng.integers(2)]]], "nan": spoil(rng, X.to_numpy(), np.nan)}[c]
    if kind == "labels":
        return {"usual": None, "full": N, "short": N[:2], "long": N + ["d"]}[c]
    if kind == "route":
        return {"usual": (None, None), "given": ((0, 2), None), "last": ((1, 2), "red"), "colour": ((0, 1), "#ff0000"), "list": ([0, 2], None), "single": ((0,), None), "real": ((0., 2), None),
                "startover": ((3, 2), None), "endover": ((0, 3), None), "neg": ((-1, 2), None), "nocolour": ((0, 2), "colourless")}[c]
    if kind == "node":
        return {"usual": 1, "last": 2, "over": 3, "neg": -1, "real": 1.0}[c]
    if kind == "margin":
        return {"usual": 2, "one": 1, "real": 1.5, "zero": [0, .99][rng.integers(2)], "text": "2"}[c]
    if kind == "switch":
        return {"usual": False, "on": True, "number": int(rng.integers(2)), "text": "on"}[c]
    if kind == "coefs":
        return {"usual": (None, None, None), "both": ([0, 1], [.5, 2.], [.1, .9]), "coefshort": ([0, 1], [.5], None), "importancelong": ([0, 1], None, [1, 2, 3])}[c]
    if kind == "repeats":
        return {"usual": 2, "one": 1, "zero": 0, "neg": -1, "real": 2.0}[c]
    if kind == "copies":
        return {"usual": 2, "three": np.int64(3), "zero": 0, "neg": -1, "real": 2.0}[c]
    if kind == "imputer":
        return {"usual": None, "own": imputer(2, 0), "other": LinearRegression(), "wrongshape": imputer(2, 1)}[c]
    if kind == "finder":
        return {"usual": None, "own": finder("own"), "other": LinearRegression(), "notuple": finder(c), "shortorder": finder(c), "doubleorder": finder(c), "wrongshape": finder(c)}[c]
    if kind == "priors":
        return {"usual": None, "given": -np.ones((3, 3), int), "small": -np.ones((2, 2), int)}[c]
    if kind == "holes":
        X = frame().to_numpy()
        H = X.copy()
        H[rng.integers(len(H), size=3), 2] = np.nan
        I = H.copy()
        I[1, 1] = np.inf
        return {"usual": H, "frame": pd.DataFrame(H), "complete": X, "inf": I, "flat": X[:, 0]}[c]
    if kind == "lagends":
        return {"usual": dict(from_index=0, to_index=1, from_lag=1), "present": dict(from_index=0, to_index=2, from_lag=0), "back": dict(from_index=0, to_index=1, from_lag=0, to_lag=1),
                "same": dict(from_index=1, to_index=1, from_lag=0)}[c]
    if kind == "timeends":
        return {"usual": dict(from_index=0, to_index=1, from_t=0, to_t=1), "present": dict(from_index=0, to_index=2, from_t=1, to_t=1), "back": dict(from_index=0, to_index=1, from_t=1, to_t=0),
                "same": dict(from_index=1, to_index=1, from_t=1, to_t=1)}[c]
    raise KeyError(kind)


def frame():
    import pandas as pd
    rng = np.random.default_rng(11)
    X = rng.laplace(size=(40, 3))
    X[:, 1] += 1.5 * X[:, 0]
    X[:, 2] += .5 * X[:, 0] - X[:, 1]
    return pd.DataFrame(X, columns=list("abc"))


def given(X, error, args):
    return np.asarray(error).ravel() + 1


def raising(X, error, args):
    raise ArithmeticError("no")


def imputer(k, extra):
    from lingam.tools import BaseMultipleImputation

    class I(BaseMultipleImputation):
        def fit_transform(self, X):
            return [np.nan_to_num(X)[:len(X) - extra] for _ in range(k)]
    return I()


def finder(how):
    from lingam.tools import BaseMultiGroupCDModel

    class F(BaseMultiGroupCDModel):
        _ok = True

        def before_imputation(self, X):
            pass

        def fit(self, X_list):
            n, k = X_list[0].shape[1], len(X_list)
            o = list(range(n))
            A = np.zeros((k, n, n))
            if how == "notuple":
                return A
            if how == "shortorder":
                o = o[:-1]
            elif how == "doubleorder":
                o[0] = o[1]
            elif how == "wrongshape":
                A = A[:, :, :-1]
            return o, A
    return F()


def act2(op, kw):
    import lingam
    import pandas as pd
    X, B = frame(), np.array([[0, 0, 0], [1.5, 0, 0], [.5, -1, 0]])
    if op.startswith("simulator"):
        s = lingam.CausalBasedSimulator()
        if op == "simulator_train_discrete":
            X["c"] = (X["c"] > 0).astype(int)
            return s.train(X, B, cd_algo_name="DirectLiNGAM", is_discrete=[False, False, True], **kw)
        if op == "simulator_train":
            return s.train(X, B, **kw)
        return s.train(X, B).run(**kw)
    if op == "CausalEffect":
        return lingam.CausalEffect(kw["causal_model"]).estimate_effects_on_prediction(X.to_numpy(), 2, kw["pred_model"])
    if op == "CausalEffect_optimal":
        return lingam.CausalEffect(kw["causal_model"]).estimate_optimal_intervention(X.to_numpy(), 2, kw["pred_model"], 0, 3.)
    if op.startswith("cdg"):
        from lingam.experimental import CausalDataGenerator as G
        if op == "cdg_fit":
            kw = dict(kw, cause={"usual": "a", "unknown": "z"}[kw["cause"]], effect={"usual": "c", "unknown": "z"}[kw["effect"]])
            return G().fit(kw.pop("X"), kw.pop("cause"), kw.pop("effect"), ["b"] if "nob" not in kw else None, **kw)
        return G().fit(X, "a", "c", ["b"]).generate(**kw)
    if op == "bootstrap_with_imputation":
        from lingam.tools import bootstrap_with_imputation
        return bootstrap_with_imputation(**kw, random_state=0)
    import lingam.utils as u
    if op == "calculate_total_effect":
        return u.calculate_total_effect(kw["adjacency_matrix"], *kw["ends"], is_continuous=kw["is_continuous"])
    if "path" in kw:
        kw = dict(kw)
        kw["path"], kw["path_color"] = kw["path"]
    if "prediction" in kw:
        kw["prediction_feature_indices"], kw["prediction_coefs"], kw["prediction_feature_importance"] = kw.pop("prediction")
    return getattr(u, op)(**kw)


OTHERS = ("simulator", "CausalEffect", "cdg", "bootstrap_with", "calculate", "evaluate", "make_dot")
DATA = ("X", "X_list")
BOOT = {"bootstrap_Direct": "DirectLiNGAM", "bootstrap_Parce": "BottomUpParceLiNGAM", "bootstrap_RCD": "RCD", "bootstrap_MultiDirect": "MultiGroupDirectLiNGAM",
        "bootstrap_MultiRCD": "MultiGroupRCD", "bootstrap_VAR": "VARLiNGAM", "bootstrap_Longitudinal": "LongitudinalLiNGAM"}


def results(rng, op):
    """a bootstrap result to be asked"""
    import lingam
    from lingam.bootstrap import BootstrapResult
    n, B = 3, 3
    tri = lambda r, c: np.array([[np.tril(rng.choice([0, .5, -2.], (n, n)), -1)] for _ in range(B)])[:, 0]
    if op.startswith("of_VAR"):
        from lingam.var_lingam import VARBootstrapResult
        A = np.concatenate([tri(n, n), rng.choice([0, .5, 2.], (B, n, n))], axis=2)
        return VARBootstrapResult(A, rng.random((B, n, 2 * n)))
    if op.startswith("of_Longitudinal"):
        from lingam.longitudinal_lingam import LongitudinalBootstrapResult
        T = 2
        A = [np.array([[np.zeros((n, n)) if t == 0 and k else (tri(n, n)[0] if k == 0 else rng.choice([0, .5, 2.], (n, n))) for k in range(2)] for t in range(T)]) for _ in range(B)]
        return LongitudinalBootstrapResult(T, np.array(A), rng.random((B, T * n, T * n)))
    return BootstrapResult(tri(n, n), rng.random((B, n, n)))


def snapshot(v):
    import copy
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    if hasattr(v, "to_numpy"):
        return (v.to_numpy().copy(), list(v.index), list(v.columns))
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return None


def equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b, equal_nan=True)
    return a == b


def one(a):
    seed, case = a
    import lingam
    rng = np.random.default_rng(seed)
    op, req, params = case["op"], case["req"], case["params"]
    n, m = int(rng.integers(2, 4)), int(rng.integers(25, 40))
    if op.startswith("of_"):
        n = 3
    if op.startswith("HighDim"):
        n = 3
    if any(req[p] in ("small", "widths") for p in req):
        n = 3
    kw = {}
    for p in sorted(req):
        if params[p] == "column":
            kw[p] = req[p]
        elif op.startswith(OTHERS) or params[p] in ("lagends", "timeends"):
            kw[p] = value2(rng, op, params[p], req[p], n)
        else:
            kw[p] = value(rng, params[p], req[p], m, n)
    before = {p: snapshot(v) for p, v in kw.items()}
    args = dict(kw)

    def act():
        if op.startswith("of_"):
            r = results(rng, op)
            meth = op.split(".")[1]
            if meth == "get_paths":
                return r.get_paths(**args.pop("ends", dict(from_index=0, to_index=1)), **args)
            return getattr(r, meth)(**args)
        if op.startswith(OTHERS):
            return act2(op, args)
        cls = getattr(lingam, BOOT.get(op, op.split("_")[0]))
        data = next(args.pop(p) for p in DATA if p in args)
        if op in BOOT:
            b = cls() if op not in ("bootstrap_Parce", "bootstrap_RCD", "bootstrap_MultiRCD") else cls(independence="fcorr")
            return b.bootstrap(data, args.get("n_sampling", 2))
        soft = {"apply_prior_knowledge_softly": True} if params.get("prior_knowledge") == "softknow" else {}
        return cls(**args, **soft).fit(data)
    with quiet():
        r = observe(act, limit=120)
    out = "ok" if r[0] == "ok" else r[1]
    t = {"op": op, "req": req, "out": out, "same": int(all(equal(before[p], snapshot(kw[p])) for p in kw)), "seed": list(seed), "msg": "" if r[0] == "ok" else str(r[2])[:160]}
    return t


def check(ctx):
    inv = "SPECIFICATION Spec\nCONSTANT PAIRS = %s\nINVARIANTS Sound Mending Blame UsualIsOk Emit\nPROPERTY Answered\n"
    single = ctx.generate("MCContracts", inv % "FALSE", name="single", workers=1)
    pairs = ctx.generate("MCContracts", inv % "TRUE", name="pairs", workers=1)
    rng = np.random.default_rng([ctx.seed, 30])
    rep = ctx.n(8, 16)
    pick = np.tile(rng.permutation(len(pairs))[:ctx.n(4000, len(pairs))], ctx.n(1, 3))
    cases = [c for c in single for _ in range(rep)] + [pairs[k] for k in pick]
    items = [([ctx.seed, 30, k], c) for k, c in enumerate(cases)]
    traces = pmap(one, items, chunk=12)
    ctx.cover["cases"] = len(traces)
    ctx.cover["refused"] = sum(t["out"] != "ok" for t in traces)
    ctx.sample(traces[0])
    ctx.judge("ContractsTrace", "SPECIFICATION Spec\n", traces, "requests",
              describe=lambda t: f"{t['op']} {dict((k, v) for k, v in t['req'].items() if v != 'usual')} -> {t['out']} {t['msg']}")
