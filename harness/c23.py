"""Statistical building blocks and printed summaries."""
import contextlib, io, re, warnings
import numpy as np
from .common import *
from . import oracles as O
from .c16 import quiet
from .c19 import as_labels

S = 1000


def form(rng, X):
    import pandas as pd
    k = rng.integers(5)
    return [X.astype(float), X.astype(int), X.tolist(), pd.DataFrame(X, columns=["c%d" % (7 - j) for j in range(X.shape[1])]), np.asfortranarray(X.astype(float))][k]


def idata(rng, m, n):
    """integer data with linear relations, centred or not"""
    p = rng.permutation(n)
    E = rng.integers(-6, 7, (m, n))
    B = np.tril(rng.choice([-1, 0, 0, 1, 2], (n, n)), -1)[np.ix_(p, p)]
    X = np.rint(np.linalg.solve(np.eye(n) - B, E.T).T).astype(int)
    return np.clip(X, -40, 40) + rng.integers(-9, 10, n)


def fail(r, o):
    r.update(out=o[1], msg=o[2])
    return r


def remove(seed):
    from lingam.utils import remove_effect
    rng = np.random.default_rng(seed)
    n, m = int(rng.integers(2, 6)), int(rng.integers(8, 25))
    X = idata(rng, m, n)
    P = [int(v) for v in rng.permutation(n)[:rng.integers(1, n)]]
    r = dict(kind="remove", X=X.tolist(), S=S, P=[v + 1 for v in P], Y=[], C=[], plain=0, expect="ok", msg="", seed=list(seed))
    if np.linalg.matrix_rank(np.c_[np.ones(m), X[:, P]]) < len(P) + 1:
        return None
    A = form(rng, X)
    Pg = [P, np.array(P)][rng.integers(2)]
    o = observe(lambda: remove_effect(A, Pg, return_coefs=True))
    if o[0] != "ok":
        return fail(r, o)
    o2 = observe(lambda: remove_effect(A, Pg))
    if o2[0] != "ok":
        return fail(r, o2)
    try:
        Y, C = o[1]
        r["out"] = "ok" if np.array_equal(np.asarray(A, float), X) else "InputModified"
        r["Y"] = np.rint(np.asarray(Y, float) * S).astype(int).tolist()
        r["C"] = [dict(f=int(k) + 1, c=[int(round(float(v) * S)) for v in C[k]]) for k in C]
        r["plain"] = int(np.array_equal(np.asarray(o2[1], float), np.asarray(Y, float)))
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
    return r


def lasso(seed):
    from lingam.utils import predict_adaptive_lasso
    rng = np.random.default_rng(seed)
    n, m = int(rng.integers(2, 7)), int(rng.integers(20, 40))
    X = idata(rng, m, n)
    f = int(rng.integers(n))
    if n > 2 and rng.random() < .4:              # a weak but certain cause
        a, b = rng.permutation([v for v in range(n) if v != f])[:2]
        X[:, a], X[:, b] = rng.integers(-20, 21, m), rng.integers(-1, 2, m)
        X[:, f] = 2 * X[:, a] + X[:, b] + (rng.random(m) < .15)
    P = [int(v) for v in rng.permutation([v for v in range(n) if v != f])[:rng.integers(1, n)]]
    if np.linalg.matrix_rank(np.c_[np.ones(m), X]) < n + 1:
        return None
    kw = {} if rng.random() < .5 else {"gamma": float(rng.choice([.5, 1, 2]))}
    want = O.adaptive_lasso(X, P, f, **kw)
    r = dict(kind="lasso", X=X.tolist(), S=S, P=[v + 1 for v in P], f=f + 1, nz=[], c=[], want=[int(v != 0) for v in want], slack=int(np.abs(X).sum() * n * 40 + 10),
             expect="ok", msg="", seed=list(seed))
    A = form(rng, X)
    o = observe(lambda: predict_adaptive_lasso(A, [P, np.array(P)][rng.integers(2)], f, **kw))
    if o[0] != "ok":
        return fail(r, o)
    c = np.asarray(o[1], float)
    r.update(out="ok" if c.shape == (len(P),) and np.isfinite(c).all() else "malformed", nz=[int(v != 0) for v in c.ravel()], c=[int(round(v * S)) for v in np.nan_to_num(c.ravel())])
    return r


def num(seed, name, got, ref, tol, equal=(), unit=(), sc=S, **more):
    """answers compared with reference values; a tolerance is in units of 1/sc"""
    r = dict(kind="numbers", what=name, S=sc, got=[], ref=[], tol=[], equal=[list(p) for p in equal], unit=list(unit), expect="ok", msg="", seed=list(seed), **more)
    o = observe(got)
    if o[0] != "ok":
        return fail(r, o)
    a, b = [float(v) for v in o[1]], [float(v) for v in ref]
    fit = lambda v: int(round(min(max(v * sc, -1e9), 1e9))) if np.isfinite(v) else 1999999999
    r.update(out="ok" if len(a) == len(b) else "malformed", got=[fit(v) for v in a], ref=[fit(v) for v in b], tol=[int(tol)] * len(a))
    return r


def noise(rng, m):
    k = rng.integers(4)
    return [rng.uniform(-1, 1, m), rng.laplace(0, 1, m), rng.exponential(1, m), rng.normal(0, 1, m)][k]


def numbers(seed):
    from lingam import utils as U
    from lingam import hsic as H
    rng = np.random.default_rng(seed)
    k = rng.integers(4)
    m = int(rng.integers(20, 160))
    x = noise(rng, m)
    y = x * rng.choice([0, .5, 2]) + noise(rng, m)
    if k == 0:
        if m > 1000:
            m = 1000
        ref = O.f_corr(x, y)
        a = float(rng.choice([-4, .5, 8]))
        b = float(rng.integers(-5, 6))
        return num(seed, "f_correlation", lambda: [U.f_correlation(x, y), U.f_correlation(y, x), U.f_correlation(x * a + b, y), U.f_correlation(x.tolist(), y)],
                   [ref] * 4, 20, equal=[(1, 2), (1, 3), (1, 4)], unit=[1, 2, 3, 4], sc=10 ** 5)
    if k == 1:
        bw = str(rng.choice(["mdbs", "scott", "silverman"]))
        d = int(rng.integers(1, 3)) if bw == "mdbs" else 1
        Y = np.c_[y, noise(rng, m)][:, :d]
        s, p = O.hsic(x, Y, bw)
        return num(seed, "hsic", lambda: list(H.hsic_test_gamma(x[:, None], Y, bw_method=bw)) + list(H.hsic_test_gamma(Y, x, bw_method=bw)), [s, p, s, p], 3,
                   equal=[(1, 3), (2, 4)], unit=[2, 4], sc=10 ** 6)
    if k == 2:
        n = int(rng.integers(1, 5))
        Z = rng.normal(0, 1, (n, m)) ** 3
        i = int(rng.integers(n))
        b = np.where(np.arange(n) == i, 0, rng.choice([0, .5, -1.2], n))
        c = float(rng.choice([0, .7, -2]))
        e = Z[i] - b @ Z
        v = np.mean((e - e.mean()) ** 2)
        ll = np.sum(-np.sqrt(2) * np.abs((e - c) / np.sqrt(v)) - .35) - m * np.log(v) / 2
        return num(seed, "likelihood", lambda: [U.variance_i(Z, i, b), U.likelihood_i(Z, i, b, c)] + list(U.log_p_super_gaussian(Z[i][:5])),
                   [v, ll] + list(-np.sqrt(2) * np.abs(Z[i][:5]) - .35), 2, sc=1000)
    w = float(H.get_kernel_width(x[:, None]))
    d2 = (x[:100, None] - x[None, :100]) ** 2
    wr = np.sqrt(np.median(d2[np.triu_indices(len(d2), 1)]) / 2)
    K, Kc = H.get_gram_matrix(x[:, None], w)
    Kr = np.exp(-(x[:, None] - x[None, :]) ** 2 / (2 * w * w))
    Hc = np.eye(m) - 1 / m
    Krc = Hc @ Kr @ Hc
    return num(seed, "gram", lambda: [w, K[0, 1], K[m - 1, 0], Kc[1, 2], Kc.sum(), np.abs(K - Kr).max(), np.abs(Kc - Krc).max(), H.hsic_teststat(Kc, Kc, m)],
               [wr, Kr[0, 1], Kr[m - 1, 0], Krc[1, 2], 0, 0, 0, np.sum(Krc ** 2) / m], 3, sc=10 ** 6)


def modelfit(seed):
    """fit indices of the described structural equation model, written down independently"""
    import pandas as pd, semopy
    from lingam.utils import evaluate_model_fit
    quiet()
    rng = np.random.default_rng(seed)
    n, m = int(rng.integers(2, 5)), int(rng.integers(60, 120))
    p = rng.permutation(n)
    W = np.round(np.tril(rng.choice([-1.25, 0, .5, .8, 1.4], (n, n)), -1), 2)[np.ix_(p, p)]
    if not W.any():
        W[p[-1], p[0]] = 0.7 if p[-1] != p[0] else 0
        i, j = [(a, b) for a in range(n) for b in range(n) if a != b][rng.integers(n * n - n)]
        W[i, j] = .7
    X = np.linalg.solve(np.eye(n) - W, rng.laplace(0, 1, (n, m))).T
    A = W.copy()
    nan = []
    order = rng.permutation(n)
    desc = []
    for i in order:
        terms = ["%f * x%d" % (A[i, j], j) for j in range(n - 1, -1, -1) if A[i, j] == A[i, j] and A[i, j] != 0]
        terms += ["eta_%d_%d" % q for q in nan if i in q]
        if terms:
            desc.append("x%d ~ %s" % (i, " + ".join(terms)))
    if nan:
        desc.append("DEFINE(latent) " + " ".join("eta_%d_%d" % q for q in nan))
    kw = {}
    try:
        with time_limit(6), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = sem(semopy, pd, "\n".join(desc), X)
    except (Exception, CaseTimeout):
        return None                              # no reference value
    cols = ["DoF", "DoF Baseline", "chi2", "CFI", "GFI", "AGFI", "NFI", "TLI", "RMSEA", "AIC", "BIC", "LogLik"]
    if rng.random() < .3:
        kw["is_ordinal"] = np.zeros(n, int) if rng.random() < .5 else [0] * n

    def call():
        s = evaluate_model_fit([A, A.tolist(), pd.DataFrame(A)][rng.integers(3)], form(rng, X) if False else [X, X.tolist(), pd.DataFrame(X)][rng.integers(3)], **kw)
        return [lim(s[c].iloc[0]) for c in cols]
    return num(seed, "model fit", call, [lim(ref[c]) for c in cols], 200 if nan else 20, sc=10 ** 4, A=str(A.tolist()))


def described(seed):
    """the structural equation model handed to semopy (which is replaced by a recorder)"""
    import pandas as pd, semopy
    from lingam.utils import evaluate_model_fit
    rng = np.random.default_rng(seed)
    n, m = int(rng.integers(2, 6)), 12
    if rng.random() < .25:                       # two-digit indices
        n = int(rng.integers(11, 24))
    few = 1 if n < 9 else .12
    o = rng.permutation(n)
    B = np.zeros((n, n), int)
    for a in range(n):
        for b in range(n):
            if o[b] < o[a] and rng.random() < .5 * few:
                B[a, b] = rng.choice([-1500, 2, 250, 1000, 700])
    for a in range(n):
        for b in range(a):
            if rng.random() < .35 * few:
                B[a, b] = B[b, a] = NAN
    A = np.where(B == NAN, np.nan, B / 1000)
    ordinal = [int(v) for v in rng.integers(0, 2, n) * int(rng.random() < .5)]
    kw = {} if not any(ordinal) and rng.random() < .5 else {"is_ordinal": [ordinal, np.array(ordinal), np.array(ordinal, bool)][rng.integers(3)]}
    X = rng.integers(0, 4, (m, n)).astype(float)
    seen = []

    class Model:
        def __init__(self, description, *a, **k):
            self.description = description

        def fit(self, data=None, *a, **k):
            seen.append((self.description, data))
            return self
    mark = pd.DataFrame({"DoF": [1]})
    r = dict(kind="model", n=n, B=B.tolist(), ordinal=[i + 1 for i in range(n) if ordinal[i]], eqs=[], latent=[], ord=[], data=0, expect="ok", msg="", seed=list(seed))
    old = semopy.Model, semopy.calc_stats
    try:
        semopy.Model, semopy.calc_stats = Model, lambda m: mark
        got = observe(lambda: evaluate_model_fit([A, A.tolist(), pd.DataFrame(A)][rng.integers(3)], [X, X.tolist(), pd.DataFrame(X)][rng.integers(3)], **kw), limit=8)
    finally:
        semopy.Model, semopy.calc_stats = old
    if got[0] != "ok":
        return fail(r, got)
    if len(seen) != 1:
        return None                              # semopy is used in another way
    r["out"] = "ok" if got[1] is mark else "other-answer"
    desc, D = seen[0]
    r["data"] = int(list(D.columns) == ["x%d" % i for i in range(n)] and np.array_equal(D.to_numpy(float), X))
    names = {}
    for l in desc.split("\n"):
        l = l.strip()
        if l.startswith("DEFINE(latent)"):
            r["latent"] += [names.setdefault(w, len(names) + 1) for w in l.split()[1:]]
        elif l.startswith("DEFINE(ordinal)"):
            r["ord"] += [int(w[1:]) + 1 for w in l.split()[1:]]
        elif l:
            q = re.fullmatch(r"x(\d+) ~ (.*)", l)
            if not q:
                r["out"] = "unreadable-description"
                break
            e = dict(v=int(q[1]) + 1, obs=[], lat=[])
            for t in q[2].split(" + "):
                u = re.fullmatch(r"(-?[\d.]+) ?\* ?x(\d+)", t.strip())
                if u:
                    e["obs"].append([int(u[2]) + 1, int(round(1000 * float(u[1])))])
                elif re.fullmatch(r"\w+", t.strip()):
                    e["lat"].append(names.setdefault(t.strip(), len(names) + 1))
                else:
                    r["out"] = "unreadable-description"
            r["eqs"].append(e)
    return r


def lim(v):
    return float(np.clip(v, -5000, 5000)) if np.isfinite(v) else 5000.0


def sem(semopy, pd, desc, X):
    M = semopy.Model(desc)
    M.fit(pd.DataFrame(X, columns=["x%d" % i for i in range(X.shape[1])]))
    s = semopy.calc_stats(M)
    return {c: s[c].iloc[0] for c in s.columns}


def printed(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn()
    return [l for l in buf.getvalue().split("\n") if l]


def text(seed):
    from lingam.utils import print_causal_directions, print_dagc
    rng = np.random.default_rng(seed)
    n = int(rng.integers(2, 7))
    labels = None if rng.random() < .4 else ["v%d" % i for i in rng.permutation(n)] if rng.random() < .6 else ["a (b>0)", "x 1", "<-", "100.0%", "z", "π"][:n]
    names = labels or ["x%d" % i for i in range(n)]
    sgn = rng.random() < .5
    N = int(rng.choice([1, 3, 7, 10, 100, 64]))

    def direction():
        f, t = rng.choice(n, 2, replace=False)
        return dict(f=int(f) + 1, t=int(t) + 1, s=int(rng.choice([-1, 1])) if sgn else 0, c=int(rng.integers(0, N + 1)))
    kind = "dirs" if rng.random() < .5 else "dags"
    L = as_labels(rng, labels)
    r = dict(kind=kind, n=N, lines=[], dirs=[], expect="ok", msg="", seed=list(seed))
    line = re.compile("(%s) <--- (%s)(?: *\\(b([<>])0\\))?" % (("|".join(map(re.escape, names)),) * 2))
    pct = re.compile(r"(\d+\.\d)%")
    key = lambda a: dict(**{"from": [d["f"] - 1 for d in a], "to": [d["t"] - 1 for d in a]}, **({"sign": [d["s"] for d in a]} if sgn else {}))
    ix = {s: i + 1 for i, s in enumerate(names)}
    sg = {None: 0, ">": 1, "<": -1}
    if kind == "dirs":
        r["dirs"] = [direction() for _ in range(rng.integers(0, 6))]
        o = observe(lambda: printed(lambda: print_causal_directions(dict(key(r["dirs"]), count=[d["c"] for d in r["dirs"]]), N, labels=L)))
        if o[0] != "ok":
            return fail(r, o)
        for l in o[1]:
            m = re.fullmatch(line.pattern + r" *\((\d+\.\d)%\)", l)
            r["lines"].append(dict(f=ix[m[2]], t=ix[m[1]], s=sg[m[3]], p=int(round(10 * float(m[4])))) if m else dict(f=0, t=0, s=0, p=0))
    else:
        D = []
        for k in range(rng.integers(0, 4)):
            E = [direction() for _ in range(rng.integers(0, 4))]
            D.append(dict(k=k, c=int(rng.integers(0, N + 1)), e=[[d["f"], d["t"], d["s"]] for d in E], E=E))
        o = observe(lambda: printed(lambda: print_dagc({"dag": [key(d["E"]) for d in D], "count": [d["c"] for d in D]}, N, labels=L)))
        r["dirs"] = [dict(k=d["k"], c=d["c"], e=d["e"]) for d in D]
        if o[0] != "ok":
            return fail(r, o)
        for l in o[1]:
            m = re.fullmatch(r"DAG\[(\d+)\]: *(\d+\.\d)%", l)
            if m:
                r["lines"].append(dict(k=int(m[1]), p=int(round(10 * float(m[2]))), e=[]))
                continue
            m = re.fullmatch(r"\s+" + line.pattern + r"\s*", l)
            if r["lines"]:
                r["lines"][-1]["e"].append([ix[m[2]], ix[m[1]], sg[m[3]]] if m else [0, 0, 0])
            else:
                r["lines"].append(dict(k=-1, p=0, e=[]))
    r["out"] = "ok"
    return r


def refusals(seed):
    """requests that must be refused"""
    from lingam import utils as U
    X = np.random.default_rng(1).normal(size=(30, 3))
    A = np.array([[0, 0, 0], [.5, 0, 0], [0, .5, 0]])
    V = "ValueError"
    cases = [(V, lambda: U.f_correlation(X[:, 0], X[:20, 1])), (V, lambda: U.evaluate_model_fit(A[:2], X)), (V, lambda: U.evaluate_model_fit(A, X[:, :2])),
             (V, lambda: U.evaluate_model_fit(A, X, is_ordinal=[0, 1])), (V, lambda: U.remove_effect(np.full((3, 3), np.nan), [0]))]
    res = []
    for k, (w, fn) in enumerate(cases):
        o = observe(fn)
        res.append(dict(kind="refuse", expect=w, out="ok" if o[0] == "ok" else o[1], case=k))
    return res


def check(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS Orthogonal Centred OrderFree SourcesKept Idempotent Shortest\n"
    ctx.design("MCBlocks", "CONSTANTS D = 3\nTOP = %d\n" % ctx.n(1, 2) + inv)
    s = ctx.seed
    traces = []
    for fn, tag, q, t in ((remove, 1, 1000, 4000), (lasso, 2, 800, 3000), (numbers, 3, 1500, 5000), (modelfit, 4, 80, 400), (described, 6, 500, 1500), (text, 5, 800, 3000)):
        got = [r for r in pmap(fn, [(s, 23, tag, i) for i in range(ctx.n(q, t))], chunk=10) if r]
        ctx.cover[fn.__name__] = len(got)
        traces += got
    traces += refusals(s)
    ctx.judge("BlocksTrace", "SPECIFICATION Spec\n", traces, "blocks")
    ctx.sample({k: v for k, v in traces[0].items()})
