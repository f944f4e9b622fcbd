"""LiM: what the local search makes of the graph found by the global optimisation."""
import contextlib, io, itertools, warnings
import numpy as np
from .common import *
from .c16 import quiet

S, SC = 10000, 1000
NOISE = .35


def draw(rng, n, m, cont):
    p = rng.permutation(n)
    B = np.tril(rng.choice([0, 0, 1.2, -1, .8, 2], (n, n)), -1)
    X = np.zeros((m, n))
    for i in p:
        Z = X @ B[i] * (1 if cont[i] else 2) + rng.laplace(0, 1, m) * rng.choice([.4, 1])
        if cont[i]:
            X[:, i] = Z
        elif rng.random() < .25:
            X[:, i] = np.digitize(Z, [-.7, .7])
        else:
            X[:, i] = Z > 0
    return X


def node_scores(X, cont):
    """log-likelihood of every variable given every set of direct causes"""
    from sklearn.linear_model import LogisticRegression
    m, n = X.shape
    out = []
    for i in range(n):
        row = []
        for code in range(2 ** n):
            pa = [j for j in range(n) if code >> j & 1]
            if i in pa:
                row.append(0.0)
            elif cont[i]:
                e = X[:, i] - X[:, i].mean()
                if pa:
                    A = np.c_[np.ones(m), X[:, pa]]
                    e = X[:, i] - A @ np.linalg.lstsq(A, X[:, i], rcond=None)[0]
                v = np.var(e)
                row.append(float(np.sum(-np.sqrt(2) * np.abs(e) / np.sqrt(v) - NOISE) - m * np.log(v) / 2))
            elif pa:
                P = LogisticRegression(solver="lbfgs").fit(X[:, pa], X[:, i])
                L = P.predict_proba(X[:, pa])
                row.append(float(sum(np.log(L[k, list(P.classes_).index(X[k, i])]) for k in range(m))))
            else:
                c = np.unique(X[:, i], return_counts=True)[1]
                row.append(float(np.sum(c * np.log(c / m))))
        out.append(row)
    return out


def start(rng, n):
    """a starting graph of any density, sometimes cyclic"""
    W = np.zeros((n, n))
    dens, cyc = rng.choice([0, .4, .8, 1]), rng.random() < .15
    p = rng.permutation(n)
    for a, b in itertools.combinations(range(n), 2):
        if rng.random() < dens:
            i, j = (p[b], p[a]) if cyc and rng.random() < .4 else (p[a], p[b])
            W[i, j] = rng.choice([-1, 1]) * rng.choice([.45, .75, 1.5, 2.25])
    return W


def case(a):
    import lingam, scipy.optimize as so
    quiet()
    seed, k, given = a[:3]
    rng = np.random.default_rng([seed, 21, k])
    n = int(rng.choice([2, 3, 3, 3, 4, 4])) if given is None else given
    m = int(rng.integers(40, 130))
    cont = rng.integers(0, 2, n)
    X = draw(rng, n, m, cont)
    if any(len(np.unique(X[:, i])) < 2 for i in range(n)) or np.linalg.matrix_rank(np.c_[np.ones(m), X]) <= n:
        return None
    thr = float(rng.choice([.1, .1, .3, .6]))
    kw = dict(w_threshold=thr)
    chosen = k % 3 != 0 if given is None else True
    W0, hit = None, []
    if chosen:
        W0 = start(rng, n) if given is None else np.array(a[3], float) * rng.choice([-1, 1], (n, n)) * rng.choice([.75, 1.5], (n, n))
        Wx = W0 + (W0 == 0) * (1 - np.eye(n)) * 1e-3 * rng.choice([-1, 1], (n, n))
        kw["max_iter"] = 1
        kw["h_tol"] = 1e-5
    rs = int(rng.integers(10 ** 6))
    con = cont.reshape(1, -1)
    model = lingam.LiM(**kw)
    real = so.minimize

    def fake(fun, x0, *args, **kws):
        if np.size(x0) != 2 * n * n:             # logistic regressions use the same function
            return real(fun, x0, *args, **kws)
        hit.append(1)
        w = Wx.ravel()
        x = np.r_[np.maximum(w, 0), np.maximum(-w, 0)]
        return so.OptimizeResult(x=x, fun=0.0, success=True, status=0, nit=1, nfev=1, message="", jac=np.zeros_like(x))

    def run(g):
        np.random.seed(rs)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model.fit(X.copy(), con, only_global=g)
        return np.array(model.adjacency_matrix_, float)

    t = dict(n=n, tol=30, pen=int(round(np.log(m) / 2 * SC)), sc=[], est=[], fin=[], again=1, S=S, thr=int(round(thr * S)),
             judgeable=1, chosen=[], replay=dict(X=X.tolist(), dis_con=con.tolist(), settings=sorted(kw.items()), numpy_seed=rs, W=[] if W0 is None else W0.tolist()))
    with replaced(real, fake if chosen else real, so):
        o = observe(lambda: [run(True), run(False), run(True)])
    t["out"] = "ok" if o[0] == "ok" else o[1]
    if o[0] != "ok":
        t["sc"] = [[0] * 2 ** n] * n
        return t
    est, fin, again = o[1]
    if est.shape != (n, n) or fin.shape != (n, n):
        t.update(out="shape", sc=[[0] * 2 ** n] * n)
        return t
    t["again"] = int(np.array_equal(est, again))
    t["est"] = np.rint(est * S).astype(int).tolist()
    t["fin"] = np.rint(fin * S).astype(int).tolist()
    if hit:
        t["chosen"] = np.rint(np.where(np.abs(W0) >= thr, W0, 0) * S).astype(int).tolist()
    # the acyclicity measure tells cycles of weak effects from none only above its tolerance
    ws = np.sort(np.minimum(np.abs(est[est != 0]), 1))[:n]
    lo = n * np.prod(ws ** 2) / float(n) ** n if len(ws) else 1
    if lo < 20 * kw.get("h_tol", 1e-8) or ((est != 0) & (est.T != 0)).any():
        t["judgeable"] = 0
        t["sc"] = [[0] * 2 ** n] * n
    else:
        t["sc"] = np.rint(np.array(node_scores(X, cont)) * SC).astype(int).tolist()
    return t


def check(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS NeverWorse OnlyAcyclic BestTurn DoneInResults Function NotImprovable EdgeBound OneWay\n"
    ctx.design("MCMixedSearch", "CONSTANTS NV = 2\nTOP = 3\nTABLES = %d\nSTARTS = 0\n" % ctx.n(100, 1000) + inv + "PROPERTY Terminates\n", name="MCMixed2", extra=("-seed", str(ctx.seed)))
    ctx.design("MCMixedSearch", "CONSTANTS NV = 3\nTOP = 4\nTABLES = %d\nSTARTS = 0\n" % ctx.n(15, 150) + inv, name="MCMixed3", extra=("-seed", str(ctx.seed)))
    if ctx.thorough:
        ctx.design("MCMixedSearch", "CONSTANTS NV = 4\nTOP = 5\nTABLES = 6\nSTARTS = 60\n" + inv, name="MCMixed4", extra=("-seed", str(ctx.seed)))
    cs = ctx.generate("MCMixedSearch", "CONSTANTS NV = 3\nTOP = 1\nTABLES = 1\nSTARTS = 0\nSPECIFICATION Spec\nINVARIANT Emit\n", name="starts")
    starts = []
    for c in cs:
        W = np.zeros((3, 3), int)
        for i, j in c["start"]:
            W[i - 1, j - 1] = 1
        if W.tolist() not in starts:
            starts.append(W.tolist())
    items = [(ctx.seed, k, None) for k in range(ctx.n(400, 1500))]
    items += [(ctx.seed, 10 ** 6 + 1000 * r + k, 3, W) for r in range(ctx.n(4, 30)) for k, W in enumerate(starts)]
    ts = [t for t in pmap(case, items, chunk=4) if t]
    ctx.cover["starting graphs chosen by TLC"] = len(starts)
    ctx.cover["changed by the local search"] = sum(t["out"] == "ok" and t["est"] != t["fin"] for t in ts)
    ctx.cover["judgeable"] = sum(t["judgeable"] for t in ts)
    ctx.judge("MixedTrace", "SPECIFICATION Spec\n", ts, "lim")
    for t in ts[:5]:
        ctx.sample(dict(est=t["est"], fin=t["fin"]))
