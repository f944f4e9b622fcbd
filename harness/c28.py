"""visualize_nonlinear_causal_effect: the figure shows the effects the specification computes."""
import numpy as np
from .common import *


def weights(name, w):
    """weight of an explaining column; dummies of column v are named v_<code>"""
    v, _, code = name.partition("_")
    return w[int(v[1:])] * (int(code) if code else 1)


def stubs():
    from sklearn.base import BaseEstimator, RegressorMixin, ClassifierMixin

    class Common(BaseEstimator):
        def __init__(self, w=None):
            self.w = w

        def fit(self, X, y):
            y = np.asarray(y).astype(int)
            s = np.sum(np.asarray(X, float) * [weights(str(c), self.w) for c in X.columns], axis=1)
            self.names_ = sorted(map(str, X.columns))
            self.chk_ = int(np.rint(np.sum(y * y + s * (y + 1)))) % 101
            self.classes_ = np.unique(y)
            return self

        def score9(self, X):
            if sorted(map(str, X.columns)) != self.names_:
                raise ValueError("other columns than trained on")
            return 9 * (np.asarray(X, float) @ [weights(str(c), self.w) for c in X.columns] + self.chk_)

    class Reg(RegressorMixin, Common):
        def predict(self, X):
            return self.score9(X) / 9

    class Clf(ClassifierMixin, Common):
        def predict(self, X):
            return self.classes_[np.argmax(self.predict_proba(X), axis=1)]

        def predict_proba(self, X):
            return ((np.rint(self.score9(X)).astype(int)[:, None] + 7 * self.classes_) % 60) / 60
    return Reg, Clf


def scaled(v, sc):
    v = np.asarray(v, float) * sc
    return [NAN if not np.isfinite(x) or abs(x - np.rint(x)) > 1e-3 else int(np.rint(x)) for x in v]


def one(seed):
    import pandas as pd
    import matplotlib
    import matplotlib.pyplot as plt
    from lingam.bootstrap import BootstrapResult
    from lingam.utils import visualize_nonlinear_causal_effect as visualize
    rng = np.random.default_rng(seed)
    Reg, Clf = stubs()
    n, m = int(rng.integers(2, 6)), int(rng.integers(4, 10))
    cause, effect = (int(v) for v in rng.permutation(n)[:2])
    X = rng.integers(0, 10, (m, n))
    disc = bool(rng.random() < .4)
    if disc:
        X[:, effect] = rng.integers(1, 1 + int(rng.integers(2, 4)), m)
    cats = [v for v in range(n) if v not in (cause, effect) and rng.random() < .25]
    for v in cats:
        X[:, v] = rng.integers(1, 4, m)
    w = [int(v) for v in rng.permutation([1, 2, 3, 5, 7])[:n]]
    boot = rng.random() < .7
    R = int(rng.integers(1, 6)) if boot else 1
    noidx = boot and rng.random() < .2
    mats = [rng.choice([0, 0, 1, 1, .5, -1, 2], (n, n)) for _ in range(R)]
    if boot and rng.random() < .3:
        for M in mats:
            M[rng.random((n, n)) < .2] = np.nan
    for M in mats:
        np.fill_diagonal(M, 0)
    rows = [np.arange(m) if noidx or not boot else rng.integers(0, m, m) for _ in range(R)]
    if disc and len(np.unique(np.concatenate([X[x, effect] for x in rows]))) < len(np.unique(X[:, effect])):
        rows[0] = rng.permutation(m)        # every class occurs in some replicate
    df = pd.DataFrame({"v%d" % v: X[:, v].astype(float) if rng.random() < .5 else X[:, v] for v in range(n)})
    for v in cats + ([effect] if disc else []):
        df["v%d" % v] = pd.Categorical(X[:, v], categories=[1, 2, 3] if v in cats else None)
    ik = rng.random()
    if ik < .25:
        df.index = rng.permutation(m)
    elif ik < .5:
        df.index = rng.permutation(m) + 50
    elif ik < .6:
        df.index = ["r%d" % k for k in range(m)]
    kw, want = {}, "ok"
    lo, hi = int(X[:, cause].min()), int(X[:, cause].max())
    if rng.random() < .6 or lo == hi:
        pos = [int(v) for v in rng.permutation(12)[:int(rng.integers(1, 7))]]
        kw["cause_positions"] = pos if rng.random() < .5 else np.array(pos, float)
        pos9 = [9 * p for p in pos]
    else:
        pos9 = [9 * lo + k * (hi - lo) for k in range(10)]
    per = [50]
    if boot:
        per = [95, 50, 5]
        if rng.random() < .4:
            per = [int(v) for v in rng.permutation([0, 10, 25, 40, 60, 75, 90, 100])[:3]]
            kw["percentile"] = list(per)
    box = bool(rng.random() < .2) and len(pos9) not in (1, 2, 5)
    if box:
        kw["boxplot"] = True
    own = None
    if rng.random() < .3:
        own = kw["fig"] = plt.figure()
    cname, ename = "v%d" % cause, "v%d" % effect
    est = (Clf if disc else Reg)(w)
    res = BootstrapResult(mats, [np.zeros((n, n))] * R, **({} if noidx else {"resampled_indices": rows})) if boot else mats[0]
    data = df
    wrong = rng.random()
    if wrong < .12:
        k = int(rng.integers(9))
        if k == 0:
            data, want = df.values, "TypeError"
        elif k == 1:
            res, want = np.zeros((n + 1, n + 1)), "TypeError"
        elif k == 2:
            cname, want = "nobody", "ValueError"
        elif k == 3:
            ename, want = "nobody", "ValueError"
        elif k == 4:
            est, want = (Reg if disc else Clf)(w), "TypeError"
        elif k == 5:
            kw["percentile"], want = [5, 50], "TypeError"
        elif k == 6:
            kw["percentile"], want = [5, 50, 101], "TypeError"
        elif k == 7:
            kw["fig"], want = 3, "TypeError"
        elif k == 8:
            df[cname] = pd.Categorical(X[:, cause])
            want = "ValueError"
    elif not boot and rng.random() < .3:
        res = res.tolist()
    before = df.copy(deep=True)
    r = {"seed": list(seed), "want": want, "box": int(box), "per": per, "panels": [], "same": 1, "own": 1,
         "prob": {"n": n, "x": X.tolist(), "w": w, "cause": cause + 1, "effect": effect + 1, "discrete": int(disc),
                  "mats": [[[7 if np.isnan(v) else int(np.rint(100 * v)) for v in q] for q in M] for M in mats], "rows": [(x + 1).tolist() for x in rows], "pos": pos9}}
    o = observe(lambda: visualize(data, res, est, cname, ename, **kw))
    r["out"] = "ok" if o[0] == "ok" else o[1]
    r["msg"] = "" if o[0] == "ok" else o[2]
    if o[0] == "ok":
        fig = o[1]
        try:
            sc = m * (60 if disc else 9)
            xs = np.array(pos9) / 9
            for ax in fig.axes:
                c = int(ax.get_title().split()[-1]) if disc else 0
                pts = [[] for _ in pos9]
                for col in ax.collections:
                    for x, y in col.get_offsets():
                        k = int(np.argmin(np.abs(xs - x)))
                        pts[k].append(scaled([y], sc)[0] if abs(xs[k] - x) < 1e-6 else NAN)
                lines = [l for l in ax.lines if len(l.get_xdata()) == len(xs) and np.allclose(l.get_xdata(), xs)]
                boxes = [[] for _ in pos9]      # quartiles drawn at each position
                for l in ax.lines if box else []:
                    x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                    if len(x) == 5 and x[0] == x[-1] and y[0] == y[-1]:
                        mid = (x.min() + x.max()) / 2
                        k = int(np.argmin(np.abs(xs - mid)))
                        boxes[k].append([int(np.rint(v * sc * 100)) for v in (y.min(), y.max())] if abs(xs[k] - mid) < 1e-6 else [NAN, NAN])
                lab = ax.get_xlabel() == cname and ename in ax.get_ylabel() + (ename if disc else "")
                if boot:
                    lab = lab and [l.get_label() for l in lines] == ["%d%%" % p for p in per]
                if disc:
                    lab = lab and ax.get_title() == "class %d" % c and ax.get_ylabel() == "probability"
                r["panels"].append({"class": c, "points": pts, "boxes": boxes, "curves": [[int(np.rint(v * sc * 100)) for v in l.get_ydata()] for l in lines], "labels": int(lab)})
        except Exception as e:
            r["out"] = "malformed-" + type(e).__name__
        r["own"] = int(own is None or fig is own)
    r["same"] = int(before.equals(df) and list(before.index) == list(df.index))
    plt.close("all")
    return r


def check(ctx):
    ctx.design("MCNonlinearEffect", "CONSTANTS N = 3\nM = %d\nSPECIFICATION Spec\nINVARIANTS OnlySample OnlyCauses NoEffect Between One\n%s" % ((2, "") if not ctx.thorough else (3, "")))
    traces = pmap(one, [(ctx.seed, 28, i) for i in range(ctx.n(600, 5000))], chunk=8)
    ctx.judge("NonlinearTrace", "SPECIFICATION Spec\n", traces, "nonlinear-effect")
    for t in traces:
        k = t["want"] + ("/discrete" if t["prob"]["discrete"] else "/numeric")
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.cover["rule"] = "random graphs, resampled rows, categorical covariates, indices and positions; stub models whose predictions the specification computes"
    ctx.sample(traces[0])
