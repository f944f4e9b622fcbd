"""LiNA: factor scores, dual ascent towards an acyclic latent graph, threshold."""
import numpy as np
from .common import *
from .c16 import quiet

SC = {2: 4, 3: 27}


def hval(W):
    d = len(W)
    return np.trace(np.linalg.matrix_power(np.eye(d) + W * W / d, d)) - d


def loss(kind, f, W):
    """penalty-free objective and its derivative"""
    n, M = len(f), f @ W
    if kind == "l2":
        return ((f - M) ** 2).sum() / (2 * n), -f.T @ (f - M) / n
    if kind == "logistic":
        return (np.logaddexp(0, M) - f * M).sum() / n, f.T @ (1 / (1 + np.exp(-M)) - f) / n
    if kind == "poisson":
        return (np.exp(M) - f * M).sum() / n, f.T @ (np.exp(M) - f) / n
    return np.log(np.cosh(f - M)).sum(), -f.T @ np.tanh(f - M)


def factors(rng, d, m):
    """standardised indicators of latent factors, two or three each"""
    f = rng.laplace(size=(m, d))
    for j in range(1, d):
        f[:, j] += f[:, :j] @ rng.choice([0, .8, -1.2], j)
    G = np.zeros((3 * d, d))
    for j in range(d):
        G[3 * j:3 * j + 3, j] = rng.uniform(.6, 1.2, 3)
    X = f @ G.T + .4 * rng.normal(size=(m, 3 * d))
    P = rng.permutation(3 * d)
    return (X / X.std(0))[:, P], (G != 0).astype(float)[P]


def doubled(rng, W):
    """(positive, negative) parts, sometimes with slack in both"""
    s = rng.integers(0, 2, W.shape) * (rng.random() < .4)
    np.fill_diagonal(s, 0)
    return np.concatenate([(np.maximum(W, 0) + s).ravel(), (np.maximum(-W, 0) + s).ravel()]).astype(float)


def asked(t, rng, f, lam1, kind, fun, x0, kw, answers):
    """what one question to the optimiser asks for"""
    d = t["d"]
    c = {"start": -1, "rho": -1, "alpha": -1, "obj": 0, "grad": 0, "bnds": 0}
    x0 = np.asarray(x0, float)
    for i, a in enumerate([np.zeros(2 * d * d)] + answers):
        if x0.shape == a.shape and np.array_equal(x0, a):
            c["start"] = i
    b = kw.get("bounds")
    if b is not None:
        if hasattr(b, "lb"):
            b = list(zip(np.broadcast_to(b.lb, 2 * d * d), np.broadcast_to(b.ub, 2 * d * d)))
        up = lambda v: v is None or np.isinf(v)
        c["bnds"] = int(len(b) == 2 * d * d and all(l == 0 and ((u == 0) if (k % (d * d)) % (d + 1) == 0 else up(u)) for k, (l, u) in enumerate(b)))
    jac = kw.get("jac")

    def ev(w):
        r = fun(w.copy(), *kw.get("args", ()))
        return (float(r[0]), np.asarray(r[1], float)) if jac is True else (float(r), np.asarray(jac(w.copy()), float))
    adj = lambda w: (w[:d * d] - w[d * d:]).reshape(d, d)
    P = [doubled(rng, off(rng, d, -2, 3)) / 4 + rng.random(2 * d * d) / 8 for _ in range(6)]
    A, y, L = [], [], []
    for w in P:
        h = hval(adj(w))
        l = loss(kind, f, adj(w))[0] + lam1 * w.sum()
        A.append([h * h / 2, h])
        y.append(ev(w)[0] - l)
        L.append(abs(l))
    # two weights explain the difference at every probe
    big = [5 * np.ones(2 * d * d) * np.tile(off(rng, d, 1, 4).ravel(), 2) * np.r_[np.ones(d * d), np.zeros(d * d)] / 2.5 for _ in range(2)]
    for w in big:
        h = hval(adj(w))
        l = loss(kind, f, adj(w))[0] + lam1 * w.sum()
        A.append([h * h / 2, h])
        y.append(ev(w)[0] - l)
        L.append(abs(l))
    A, y, L = np.array(A), np.array(y), np.array(L)
    wgt = 1 / (1e-9 * L + 1e-9 * np.abs(y) + 1e-9)
    s, *_ = np.linalg.lstsq(A * wgt[:, None], y * wgt, rcond=None)
    rho, alpha = int(np.rint(np.clip(s[0], -1e9, 1e9))), int(np.rint(np.clip(s[1] * SC[d], -1e9, 1e9)))
    ok = np.abs(A @ [rho, alpha / SC[d]] - y) <= 1e-6 * (1 + L + np.abs(y))
    c["obj"] = int(ok.all())
    if ok.all():
        c["rho"], c["alpha"] = rho, alpha
    good = 1
    for w in P[:3] + big[:1]:
        W = adj(w)
        h = hval(W)
        G = loss(kind, f, W)[1] + (rho * h + alpha / SC[d]) * 2 * W * np.linalg.matrix_power(np.eye(d) + W * W / d, d - 1).T
        want = np.concatenate([(G + lam1).ravel(), (lam1 - G).ravel()])
        good &= int(np.allclose(ev(w)[1].ravel(), want, rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max())))
    c["grad"] = good
    return c


def off(rng, d, lo, hi):
    W = rng.integers(lo, hi, (d, d))
    np.fill_diagonal(W, 0)
    return W


def one(a):
    seed, case = a
    import lingam, scipy.optimize
    from psy import cfa
    rng = np.random.default_rng(seed)
    scripted = case != "real"
    d = 2 if isinstance(case, dict) else int(rng.integers(2, 4))
    X, sign = factors(rng, d, int(rng.integers(30, 60)) if scripted else 120)
    scale = rng.choice([.5, 1, 1, 2], (1, d))
    kind = str(rng.choice(["laplace", "laplace", "l2", "logistic", "poisson"]))
    lam1 = float(rng.choice([0, .1, .5]))
    thr = int(rng.choice([3, 10, 15, 20]))
    t = {"scripted": int(scripted), "d": d, "seed": list(seed), "kind": kind, "thr": thr, "outer": 100, "rhomax": 1000, "tol": 0, "ws": [], "calls": [], "W": [],
         "Z": [], "small": 0, "conv": 1, "meas": 1, "same": 1, "out": "ok", "msg": ""}
    if isinstance(case, dict):
        t.update({k: case["prob"][k] for k in ("outer", "rhomax", "tol")})
        Ws = []
        for l in case["log"]:
            W = np.array([[0, l["p"]], [int(l["p"] > 0), 0]])
            W = W.T if rng.random() < .5 else W
            if l["p"] == 0 and rng.random() < .7:
                W[0, 1] = rng.integers(1, 4)
                W = W.T if rng.random() < .5 else W
            Ws.append(W * rng.choice([-1, 1], (2, 2)))
        htol = 1e-8 if t["tol"] == 0 else t["tol"] / 4
    elif scripted:
        t["rhomax"] = int(rng.choice([10, 50, 100, 1000, 10000]))
        t["outer"] = int(rng.integers(1, 5))
        t["tol"] = int(rng.choice([0, 0, 1, 20]))
        htol = 1e-8 if t["tol"] == 0 else (t["tol"] + .5) / SC[d]
        Ws, hs = [], set()
        while len(Ws) < 30:
            W = off(rng, d, -2, 3) * rng.choice([0, 1, 1], (d, d))
            hn = int(np.rint(hval(W) * SC[d]))
            # exact quarters are undecidable in floating point for three factors
            if d == 2 or hn == 0 or not any(4 * hn == v or hn == 4 * v for v in hs):
                Ws.append(W)
                hs.add(hn)
    else:
        htol, t["rhomax"], Ws = 1e-8, 1000, []
        kind = t["kind"] = str(rng.choice(["laplace", "l2"]))
    answers = [doubled(rng, W) for W in Ws]
    for i, x in enumerate(answers):          # no two alike
        x[[1, 1 + d * d]] += 16 * (i + 1)
    lam, *_ = cfa(X, sign)
    f = np.linalg.lstsq(lam, X.T, rcond=None)[0].T * scale
    keep = X.copy(), sign.copy(), scale.copy()
    real = scipy.optimize.minimize
    calls = []

    class Stop(Exception):
        pass

    def fake(fun, x0, *args, **kw):
        if len(calls) >= len(answers):
            raise Stop
        calls.append(asked(t, rng, f, lam1, kind, fun, x0, kw, answers))
        x = answers[len(calls) - 1].copy()
        return scipy.optimize.OptimizeResult(x=x, success=True, fun=0.0, nit=1, nfev=1, status=0, message="", jac=np.zeros_like(x))
    M = lingam.LiNA(w_threshold=thr / 10, lambda1=lam1, loss_type=kind, max_iter=t["outer"], h_tol=htol, rho_max=1e16 if not scripted else float(t["rhomax"]))
    with quiet(), replaced(real, fake if scripted else real, scipy.optimize):
        o = observe(lambda: M.fit(X, sign, scale), limit=120)
    if scripted and not calls:
        return None          # another optimiser: nothing can be scripted
    t["calls"], t["ws"] = calls, [W.tolist() for W in Ws]
    if o[0] != "ok":
        if scripted and o[1] == "Stop" or "Stop" in str(o):
            t["calls"] = calls + [calls[-1]]
            t["ws"] = t["ws"] + [t["ws"][-1]]
        else:
            t["out"], t["msg"] = o[1], o[2]
        return t

    def fill():
        W = np.asarray(M.adjacency_matrix_, float)
        assert W.shape == (d, d)
        t["same"] = int(np.array_equal(np.asarray(o[1]), W) and all(np.array_equal(a, b) for a, b in zip(keep, (X, sign, scale))))
        t["meas"] = int(np.allclose(M.measurement_matrix_, lam, rtol=1e-6, atol=1e-9))
        if scripted:
            t["W"] = imat(W)
            assert t["W"] is not None, "not made of the answers"
        else:
            t["Z"] = smat(W)
            t["small"] = int(bool(((np.abs(W) < thr / 10) & (W != 0)).any()))
    a = observe(fill)
    if a[0] != "ok":
        t["out"], t["msg"] = "answer-malformed", str(a)
    return t


def check(ctx):
    import lingam
    cfg = "CONSTANTS NS = {0, 1, 2, 4}\nOUTERS = {1, 3}\nRHOMAXS = {10, 100}\nTOLS = {0, 2}\nSPECIFICATION Spec\nINVARIANTS Powers Done Latest Emit\nPROPERTIES Ends Shrinks Monotone\n"
    cases = ctx.generate("MCDualAscent", cfg, name="MCDualAscent", workers=1)
    ctx.rng.shuffle(cases)
    n = ctx.n(200, len(cases))
    jobs = [((ctx.seed, 29, i), c) for i, c in enumerate(cases[:n])]
    jobs += [((ctx.seed, 290, i), "random") for i in range(ctx.n(200, 1500))] + [((ctx.seed, 291, i), "real") for i in range(ctx.n(40, 300))]
    tr = pmap(one, jobs, chunk=2)
    ctx.cover["not_scriptable"] = sum(t is None for t in tr)
    traces = [t for t in tr if t is not None]
    ctx.judge("DualAscentTrace", "SPECIFICATION Spec\n", traces, "dual-ascent")
    X, sign = factors(np.random.default_rng(1), 2, 30)
    o = observe(lambda: lingam.LiNA(loss_type="huber").fit(X, sign, np.ones((1, 2))))
    if o[:2] != ("err", "ValueError"):
        ctx.fail("unknown loss accepted", {"got": str(o)[:80]})
    ctx.cover["behaviours"] = len(cases)
    ctx.cover["questions"] = sum(len(t["calls"]) for t in traces)
    for k in ("laplace", "l2", "logistic", "poisson"):
        ctx.cover[k] = sum(t["kind"] == k for t in traces)
    ctx.cover["real_nonempty"] = sum(not t["scripted"] and any(map(any, t["Z"])) for t in traces)
    ctx.cover["rule"] = "answers of the optimiser chosen by TLC (two factors) or drawn (three), judged question by question; real runs judged by their graph"
    ctx.sample(traces[0])
