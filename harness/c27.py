"""Names, units and listing order do not matter."""
import numpy as np
from .common import *
from .sym import *
from . import oracles as O

FAMS = ["Direct", "Direct-kernel", "Direct-hard", "Direct-soft", "HighDim", "Parce-hsic", "Parce-fcorr", "RCD", "RESIT", "MultiDirect", "MultiRCD", "VAR", "Longitudinal", "CAMUV", "Parce-pk"]


def one(a):
    seed, fam, how = a
    import lingam
    from sklearn.linear_model import LinearRegression
    rng = np.random.default_rng(seed)
    np.random.seed(1)
    n = int(rng.integers(2, 6)) if fam not in ("Direct-kernel", "CAMUV", "Parce-fcorr", "Longitudinal", "VAR") else int(rng.integers(2, 4))
    if fam == "HighDim":
        n = int(rng.integers(2, 8))
    m = int(rng.integers(50, 90)) if fam != "CAMUV" else 60
    G = 2 + int(rng.integers(2))
    dist = "uniform" if rng.random() < .5 else "laplace"
    if fam == "VAR":
        D = [series(rng, 70, n)]
    elif fam == "Longitudinal":
        D = [lin(rng, m, n, dist) for _ in range(G)]
        D = [D[0]] + [D[k] + D[k - 1] @ rng.uniform(-.6, .6, (n, n)) for k in range(1, G)]
    elif fam.startswith("Multi"):
        X = lin(rng, m * G, n, dist)
        D = [X[k * m:(k + 1) * m] for k in range(G)]
    else:
        D = [lin(rng, m, n, dist)]
    pk = rand_pk(rng, n, .4, .5, consistent=rng.random() < .85)
    par = dict(alpha=float(rng.choice([.01, .2, .6])), ind=float(rng.choice([.05, .3])))
    # what changes
    pi, e, g, sh, gp = np.arange(n), np.zeros(n, int), np.ones(n, int), np.zeros(n), list(range(len(D)))
    rows = np.arange(m)
    if how == "place":
        pi = rng.permutation(n)
    elif how == "unit":
        e = rng.integers(-3, 4, n)
    elif how == "far":
        e = rng.integers(-10, 11, n)
    elif how == "sign":
        g = rng.choice([-1, 1], n)
    elif how == "shift":
        sh = rng.integers(-6, 7, n).astype(float)
    elif how == "samples":
        rows = rng.permutation(m)
    elif how == "groups":
        gp = [int(v) for v in rng.permutation(len(D))]
    D2 = [None] * len(D)
    for d, X in enumerate(D):
        Y = X * (2.0 ** e) * g + sh
        if how == "samples":
            Y = Y[rows]
        Z = np.empty_like(Y)
        Z[:, pi] = Y
        D2[gp[d]] = Z
    pk2 = np.empty_like(pk)
    pk2[np.ix_(pi, pi)] = pk

    def fit(D, pk):
        if fam == "Direct":
            return lingam.DirectLiNGAM().fit(D[0])
        if fam == "Direct-kernel":
            return lingam.DirectLiNGAM(measure="kernel").fit(D[0])
        if fam in ("Direct-hard", "Direct-soft"):
            return lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=fam == "Direct-soft").fit(D[0])
        if fam == "HighDim":
            return lingam.HighDimDirectLiNGAM().fit(D[0])
        if fam == "Parce-hsic":
            return lingam.BottomUpParceLiNGAM(alpha=par["alpha"]).fit(D[0])
        if fam == "Parce-pk":
            return lingam.BottomUpParceLiNGAM(alpha=par["alpha"], prior_knowledge=pk).fit(D[0])
        if fam == "Parce-fcorr":
            return lingam.BottomUpParceLiNGAM(alpha=par["alpha"], independence="fcorr", ind_corr=.5).fit(D[0])
        if fam == "RCD":
            return lingam.RCD(ind_alpha=par["ind"], shapiro_alpha=.9, MLHSICR=False).fit(D[0])
        if fam == "RESIT":
            return lingam.RESIT(regressor=LinearRegression(), alpha=par["alpha"]).fit(D[0])
        if fam == "MultiDirect":
            return lingam.MultiGroupDirectLiNGAM().fit(D)
        if fam == "MultiRCD":
            return lingam.MultiGroupRCD(ind_alpha=par["ind"], shapiro_alpha=.9, MLHSICR=False).fit(D)
        if fam == "VAR":
            return lingam.VARLiNGAM(lags=2, prune=bool(seed[-1] % 2)).fit(D[0])
        if fam == "Longitudinal":
            return lingam.LongitudinalLiNGAM().fit(D)
        if fam == "CAMUV":
            return lingam.CAMUV(alpha=par["alpha"]).fit(D[0])
    r = {"fam": fam, "how": how, "seed": list(seed), "n": n, "pi": (pi + 1).tolist(), "e": (e - e.min()).tolist(), "g": g.tolist(), "gp": [1], "op": [1], "tol": 0, "rest": 1,
         "o1": [], "o2": [], "B1": [], "B2": []}
    res = []
    for k, (d, q) in enumerate([(D, pk), (D2, pk2)]):
        o = observe(lambda: answer(fit([x.copy() for x in d], q.copy())))
        r["out%d" % (k + 1)] = "ok" if o[0] == "ok" else o[1]
        r["msg%d" % (k + 1)] = "" if o[0] == "ok" else o[2]
        res.append(o[1] if o[0] == "ok" else None)
    if None in res:
        return r
    (o1, B1), (o2, B2) = res
    r["o1"], r["o2"] = o1, o2
    if how == "far":        # the second answer is written down in the units of the first
        B2 = [b * 2.0 ** (e[None, :] - e[:, None]) for b in B2]
        e = np.zeros(n, int)
        r["e"] = e.tolist()
    big = max([1] + [float(np.nanmax(np.abs(np.nan_to_num(b)))) for b in B1 + B2])
    sc = 10000
    while big * sc * 2.0 ** int(np.ptp(e)) > 5e8:
        sc /= 10
    if fam == "RESIT":      # marks edges, not effects
        e, g = np.zeros(n, int), np.ones(n, int)
        r["e"], r["g"] = e.tolist(), g.tolist()
    r["B1"], r["B2"] = [fx(b, sc) for b in B1], [fx(b, sc) for b in B2]
    r["tol"] = int(2 * 2 ** int(np.ptp(e)) + 2)
    r["gp"] = [v + 1 for v in gp] if fam.startswith("Multi") else list(range(1, len(B1) + 1))
    if fam in ("RCD", "MultiRCD"):
        r["op"] = (pi + 1).tolist()
    else:
        r["op"] = list(range(1, len(o1) + 1))
    return r


def check(ctx):
    ctx.design("MCSymmetry", "CONSTANTS N = 3\nMODES = {\"none\", \"hard\", \"soft\"}\nSPECIFICATION Spec\nINVARIANTS SameProgress SameChoices SameOrder SamePredictors\n")
    traces = pmap(one, jobs(ctx), chunk=4)
    ctx.judge("SymmetryTrace", "SPECIFICATION Spec\n", traces, "symmetry")
    for t in traces:
        k = t["fam"] + "/" + t["how"]
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
        k = t["fam"] + " " + t["out1"]
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.sample(traces[0])


HOWS = ["place", "unit", "sign", "shift", "samples", "groups", "far"]
# RESIT compares variables of different units with each other and prunes in listing order;
# RCD and CAMUV extend their knowledge while they walk through the listed variables
NOT = {("RESIT", "unit"), ("RESIT", "place"), ("RCD", "place"), ("MultiRCD", "place"), ("CAMUV", "place"), ("CAMUV", "unit"), ("CAMUV", "sign"), ("CAMUV", "shift"), ("CAMUV", "far"), ("RESIT", "far"),
       ("HighDim", "unit"), ("HighDim", "far"), ("HighDim", "shift"),      # compares moments of different variables, around zero
      
       ("Parce-fcorr", "samples")}      # the incomplete factorisation starts from the first sample


def jobs(ctx):
    res = []
    for k, f in enumerate(FAMS):
        for h, how in enumerate(HOWS):
            if (f, how) in NOT or how == "groups" and not f.startswith("Multi") or f == "VAR" and how in ("shift", "samples"):
                continue
            q = ctx.n(1, 10) if f == "CAMUV" else ctx.n(40, 200)
            res += [((ctx.seed, 27, k, h, i), f, how) for i in range(q)]
    return res
