"""The same numbers give the same answers, however they are stored."""
import numpy as np
from .common import *
from .sym import *
from . import c16
from .c16 import same, quiet

FORMS = ["list", "frame", "fortran", "view", "int", "intlist", "readonly", "intframe", "group-array"]


def store(X, how, rng):
    """X: float array with integer values, or a list of those"""
    import pandas as pd
    if isinstance(X, list):
        if how == "group-array":
            return np.array(X) if len({x.shape for x in X}) == 1 else X
        return [store(x, how, rng) for x in X]
    if how in ("list", "intlist"):
        return (X.astype(int) if how == "intlist" else X).tolist()
    if how in ("frame", "intframe"):
        return pd.DataFrame(X.astype(int) if how == "intframe" else X, columns=["v%d" % (9 - j) for j in range(X.shape[1])], index=rng.permutation(len(X)) + 5)
    if how == "fortran":
        return np.asfortranarray(X)
    if how == "view":
        Y = np.zeros((2 * len(X), 3 * X.shape[1]))
        Y[::2, ::3] = X
        return Y[::2, ::3]
    if how == "int":
        return X.astype(int)
    if how == "readonly":
        Y = X.copy()
        Y.setflags(write=False)
        return Y
    return X.copy()


_fam = {}


def fams(seed):
    if tuple(seed) not in _fam:
        _fam.clear()
        fs, _ = c16.families(seed)
        for F in fs.values():
            F.data = [[np.rint(4 * x) for x in X] if isinstance(X, list) else np.rint(X * np.where(np.array([len(np.unique(c)) for c in X.T]) > 2, 4, 1)) for X in F.data]
        _fam[tuple(seed)] = fs
    return _fam[tuple(seed)]


def answers(name, F, o, X, how, rng):
    m = F.make(o)
    np.random.seed(5)
    F.fit(m, store(X, how, rng))
    a = answer(m)
    np.random.seed(6)
    q = F.ask(m, store(X, how, rng))
    if name == "VARMALiNGAM":
        E = np.random.default_rng(3).integers(-9, 9, X.shape).astype(float)
        q = [q, m.estimate_total_effect(store(X, how, rng), store(E, how, rng), 0, 1), m.estimate_total_effect(store(X, how, rng), store(E, how, rng), 1, 0, 1)]
    np.random.seed(7)
    b = F.boot(F.make(o), store(X, how, rng)) if F.cost < 10 else [0]
    return a, [q, b, getattr(m, "residuals_", None) if hasattr(type(m), "residuals_") else None]


def one(job):
    name, seed, o, d, how = job
    F = fams(seed)[name]
    rng = np.random.default_rng([*seed, o, d])
    r = {"fam": name, "how": how, "seed": list(seed), "o": o, "d": d, "pi": [], "e": [], "g": [], "gp": [], "op": [], "tol": 1, "rest": 1, "o1": [], "o2": [], "B1": [], "B2": [], "n": 0}
    X = F.data[d]
    res = []
    with quiet():
        for k, h in ((1, "array"), (2, how)):
            a = observe(lambda: answers(name, F, o, X, h, rng))
            r["out%d" % k], r["msg%d" % k] = ("ok", "") if a[0] == "ok" else a[1:]
            res.append(a[1] if a[0] == "ok" else None)
    if None in res:
        return r
    ((o1, B1), s1), ((o2, B2), s2) = res
    n = len(B1[0])
    sc = 10000
    while max([1] + [float(np.abs(np.nan_to_num(b)).max(initial=0)) for b in B1 + B2]) * sc > 5e8:
        sc /= 10
    r.update(n=n, pi=list(range(1, n + 1)), e=[0] * n, g=[1] * n, gp=list(range(1, len(B1) + 1)), op=list(range(1, len(o1) + 1)),
             o1=o1, o2=o2, B1=[fx(b, sc) for b in B1], B2=[fx(b, sc) for b in B2], rest=int(same(s1, s2, F.tol)))
    return r


def check(ctx):
    import lingam
    ctx.design("MCSymmetry", "CONSTANTS N = 2\nMODES = {\"none\", \"hard\", \"soft\"}\nSPECIFICATION Spec\nINVARIANTS SameProgress SameChoices SameOrder SamePredictors\n")
    jobs = []
    for s in [(ctx.seed, 26, i) for i in range(ctx.n(3, 10))]:
        for name, F in fams(s).items():
            for d in (0, 1):
                for k, how in enumerate(FORMS):
                    if how == "group-array" and not isinstance(F.data[0], list):
                        continue
                    o = 1 + (k + d + ctx.seed) % 2
                    if F.cost < 30 or ctx.thorough or k % 3 == d:
                        jobs.append((name, s, o, d, how))
                        if F.cost < 5:
                            jobs.append((name, s, 3 - o, d, how))
    traces = pmap(one, jobs, chunk=2)
    ctx.judge("SymmetryTrace", "SPECIFICATION Spec\n", traces, "representation")
    for t in traces:
        ctx.cover[t["fam"]] = ctx.cover.get(t["fam"], 0) + 1
    ctx.cover["rejected_both"] = sum(t["out1"] != "ok" and t["out1"] == t["out2"] for t in traces)
    ctx.cover["rule"] = "integer-valued data of every estimator family given as float array and as list, data frame, Fortran-ordered, strided, integer or read-only array; fit, queries and bootstrap compared"
    ctx.sample(traces[0])
