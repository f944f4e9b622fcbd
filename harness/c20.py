"""OutOfSampleCausalTuning: which configuration is chosen, and on what grounds."""
import warnings
import numpy as np
from .common import *
from .c16 import quiet

SC = 10 ** 5


class Discovery:
    """a causal discovery method whose answers are given: a graph per training part"""

    def __init__(self, name=None, answers=None, log=None):
        self.a = (name, answers, log)

    def fit(self, X, mark=None):
        name, answers, log = self.a
        X = np.asarray(X)
        log.append((name, X.copy(), mark))
        W = answers(X)
        self.adjacency_matrix_ = W
        return self


def blanket(G, i):
    n = len(G)
    pa = lambda v: {j for j in range(n) if G[v][j]}
    ch = {j for j in range(n) if G[j][i]}
    return sorted((pa(i) | ch | {u for c in ch for u in pa(c)}) - {i})


def mi(x, y):
    return -.5 * np.log(1 - np.corrcoef(x, y)[0, 1] ** 2)


def folds(rng, m):
    from sklearn.model_selection import KFold, ShuffleSplit
    k = int(rng.integers(2, 5))
    r = rng.integers(4)
    if r == 0:
        return KFold(k, shuffle=True, random_state=int(rng.integers(99)))
    if r == 1:
        return ShuffleSplit(k, test_size=.3, random_state=int(rng.integers(99)))
    if r == 2:
        p = rng.permutation(m)
        parts = np.array_split(p, k)
        return [(np.sort(np.setdiff1d(p, q)), np.sort(q)) for q in parts]
    return k


def split(cv, X):
    from sklearn.model_selection import check_cv
    return [(np.array(a), np.array(b)) for a, b in check_cv(cv).split(X)]


def case(a):
    import lingam
    from lingam.experimental import OutOfSampleCausalTuning
    from sklearn.ensemble import RandomForestRegressor as RF
    quiet()
    seed, k = a
    rng = np.random.default_rng([seed, 20, k])
    n = int(rng.choice([2, 3, 3, 4]))
    m = int(rng.integers(24, 50))
    stub = k % 45 != 0
    if not stub:
        n, m = 2, 24
    B = np.tril(rng.choice([0, 1.2, -1, .7], (n, n)), -1)
    if rng.random() < .6:                            # hardly anything to tell the configurations apart
        B *= .2
    X = np.linalg.solve(np.eye(n) - B, rng.uniform(-1, 1, (n, m))).T * rng.choice([.3, 1, 2]) + rng.normal(0, 1)
    X = X + np.arange(m)[:, None] * 1e-9            # rows stay distinct
    cv = folds(rng, m)
    sp = split(cv, X)
    nf = len(sp)
    K = int(rng.choice([1, 2, 2, 3, 4])) if stub else 2
    log, graphs, others, configs = [], [], [], []
    rows = {X[tr].tobytes(): f for f, (tr, _) in enumerate(sp)}
    dup = rng.random() < .25                         # configurations that agree
    near = rng.random() < .5
    for c in range(K):
        oth = int(rng.random() < (.1 if near else .25))
        dens = rng.choice([0, .3, .7, 1])
        gs = []
        for f in range(nf):
            p = rng.permutation(n)
            G = np.tril(rng.random((n, n)) < dens, -1)[np.ix_(p, p)].astype(float)
            if rng.random() < .15:
                G = ((rng.random((n, n)) < dens) & ~np.eye(n, dtype=bool)).astype(float)   # also cyclic ones
            G *= rng.choice([-1, .01, .5, 3], (n, n))
            gs.append(G)
        if rng.random() < .5:
            gs = [gs[0]] * nf
        if dup and c and not others[-1]:
            gs = [g * 2 for g in graphs[-1]]
        elif near and c:                             # one effect more or less
            G = graphs[rng.integers(c)][0].copy()
            i, j = [int(v) for v in rng.permutation(n)[:2]]
            G[i, j] = 0 if G[i, j] and rng.random() < .7 else 1
            gs = [G] * nf
        elif near:
            gs = [(B != 0) * 1.0] * nf
        def answers(X_, gs=gs):
            f = rows.get(np.ascontiguousarray(X_).tobytes())
            return (gs[f] if f is not None else np.zeros((n, n))).copy()
        mark = int(rng.integers(1, 99))
        cf = dict(all_others=True) if oth else dict(model=Discovery, init_kwargs=dict(name=c, answers=answers, log=log), fit_kwargs=dict(mark=mark))
        if oth and rng.random() < .3:
            cf["model"] = Discovery
        elif not oth and rng.random() < .5:
            cf["all_others"] = False
        configs.append(cf)
        graphs.append(gs)
        others.append(oth)
    penalty = bool(rng.random() < .6) or dup
    thr = float(rng.choice([.05, .01, .3, .7]))
    rs = int(rng.integers(10 ** 6))
    hits = []

    def ffit(self, A, y, sample_weight=None):
        hits.append(1)
        A = np.asarray(A)
        self._c = np.linalg.lstsq(np.c_[np.ones(len(A)), A], np.asarray(y), rcond=None)[0]
        return self

    def fpredict(self, A):
        A = np.asarray(A)
        return np.c_[np.ones(len(A)), A] @ self._c

    given = X.copy() if rng.random() < .7 else X.tolist()
    t = dict(n=n, f=nf, graphs=[[(g != 0).astype(int).tolist() for g in gs] for gs in graphs], others=others, penalty=int(penalty),
             thr=int(round(thr * 1000)), expect="ok", rank=[0] * K, p=[0] * K, op=[-1] * K, otol=[0] * K, keys=[0], perf=[0] * K, oracle=[0] * K, ptol=40, size=[0] * K,
             exact=[1] * K, exps=[], trained=[1] * K, once=1, kept=1, stubbed=0, best=0, seed=[seed, k])

    def run():
        del log[:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=penalty, thr=thr, random_state=rs)
            r = o.fit(given, configs)
        return o, o.best_config_index_, o.scores_, list(log), r
    old = RF.fit, RF.predict
    try:
        if stub:
            RF.fit, RF.predict = ffit, fpredict
        o1 = observe(run)
        o2 = observe(run) if k % 3 == 0 and o1[0] == "ok" else None
    finally:
        RF.fit, RF.predict = old
    t["out"] = "ok" if o1[0] == "ok" else o1[1]
    if o1[0] != "ok":
        return t
    obj, best, sc, lg, ret = o1[1]
    if ret is not obj:
        t["out"] = "fit-does-not-return-self"
        return t
    if o2 is not None:
        t["once"] = int(o2[0] == "ok" and o2[1][1] == best and np.allclose(o2[1][2]["performance"], sc["performance"], equal_nan=True) and o2[1][2]["sp_score"] == sc["sp_score"])
    t["kept"] = int(np.array_equal(np.asarray(given), X))
    t["best"] = int(best) + 1
    perf = [float(v) for v in sc["performance"]]
    if len(perf) != K or len(sc["mb_size"]) != K:
        t["out"] = "scores-missing"
        return t
    if not np.isfinite(perf).all():
        return None
    srt = sorted(set(perf))
    for x, y in zip(srt, srt[1:]):
        if y - x < 1e-9 * max(1, abs(y)):
            return None                              # too close to call
    t["rank"] = [srt.index(v) + 1 for v in perf]
    t["perf"] = [int(round(min(v, 900) * SC)) for v in perf]
    for c in range(K):
        s = float(sc["mb_size"][c]) * n * nf
        t["size"][c] = int(round(s))
        if abs(s - round(s)) > 1e-6:
            t["size"][c] = -1
        want = [] if others[c] else sorted(rows.values())
        got = [(rows.get(np.ascontiguousarray(A).tobytes(), -1), mk) for nm, A, mk in lg if nm == c]
        t["trained"][c] = int(sorted(f for f, _ in got) == want and all(mk == configs[c]["fit_kwargs"]["mark"] for _, mk in got)) if not others[c] else int(not got)
    if len(rows) != nf:
        return None
    preds = []
    for c in range(K):
        ex, per = [], [[] for _ in range(n)]
        for f, (tr, te) in enumerate(sp):
            e = [[j for j in range(n) if j != i] if others[c] else blanket(graphs[c][f], i) for i in range(n)]
            ex.append([[j + 1 for j in v] for v in e])
            for i in range(n):
                A = np.c_[np.ones(len(tr)), X[np.ix_(tr, e[i])]]
                co = np.linalg.lstsq(A, X[tr, i], rcond=None)[0]
                per[i].append(np.c_[np.ones(len(te)), X[np.ix_(te, e[i])]] @ co)
        t["exps"].append(ex)
        preds.append([np.concatenate(v) for v in per])
    te = np.concatenate([b for _, b in sp])
    t["stubbed"] = int(stub and bool(hits) or stub and all(not v for ex in t["exps"] for e in ex for v in e))
    orc = [float(np.mean([mi(X[te, i], preds[c][i]) for i in range(n)])) for c in range(K)]
    if not np.isfinite(orc).all() or max(orc) > 5:
        t["stubbed"] = 0
    else:
        t["oracle"] = [int(round(v * SC)) for v in orc]
    t["keys"] = [0] if sc["sp_score"] is None else [int(v) + 1 for v in sc["sp_score"]]
    if sc["sp_score"] is not None:
        b = int(np.argmax(perf))
        for c in sc["sp_score"]:
            p = float(sc["sp_score"][c])
            t["p"][int(c)] = int(round(p * 1000))
            if t["stubbed"]:
                d = perf[b] - perf[int(c)]
                M = 2000
                def perm(y, x):
                    P = np.array([rng.permutation(y) for _ in range(M)])
                    P = (P - P.mean(1, keepdims=True)) / P.std(1, keepdims=True)
                    r = P @ ((x - x.mean()) / x.std()) / len(x)
                    return -.5 * np.log(1 - r ** 2)
                if any(np.std(preds[q][i]) == 0 for q in (b, int(c)) for i in range(n)):
                    continue
                ts = np.mean([perm(preds[b][i], X[te, i]) - perm(preds[int(c)][i], X[te, i]) for i in range(n)], axis=0)
                q = float(np.mean(ts > d))
                t["op"][int(c)] = int(round(q * 1000))
                t["otol"][int(c)] = int(1000 * (6 * np.sqrt(max(q * (1 - q), .002) * (1 / 1000 + 1 / M)) + .012))
    return t


def errors(ctx):
    """arguments that must be refused"""
    from lingam.experimental import OutOfSampleCausalTuning as O
    X = np.random.default_rng(1).normal(0, 1, (12, 2))
    ok = [dict(all_others=True)]
    cases = [
        (dict(), (ok[0],), "TypeError"), (dict(), [], "ValueError"), (dict(), ["x"], "TypeError"), (dict(), [dict(model=3)], "TypeError"),
        (dict(), [dict(model=Discovery, init_kwargs=[1])], "TypeError"), (dict(), [dict(model=Discovery, fit_kwargs=3)], "TypeError"),
        (dict(), [dict(all_others=1)], "TypeError"), (dict(), [ok[0], dict(colour=3)], "ValueError"), (dict(), [dict()], "ValueError"),
        (dict(), [dict(init_kwargs={})], "ValueError"), (dict(), [ok[0], dict(all_others=False)], "ValueError"),
        (dict(thr=0.0), ok, "ValueError"), (dict(thr=1.0), ok, "ValueError"), (dict(thr=-.1), ok, "ValueError"), (dict(thr="x"), ok, "TypeError"),
        (dict(sparsity_penalty="yes"), ok, "TypeError"), (dict(random_state="x"), ok, "ValueError")]
    out = []
    for kw, cf, e in cases:
        o = observe(lambda: O(**kw).fit(X, cf))
        out.append(dict(n=2, f=1, graphs=[], others=[], penalty=0, thr=0, expect=e, out=o[1] if o[0] == "err" else "ok", rank=[], p=[], what=str(kw) + str(cf)[:80]))
    o = observe(lambda: O().best_config_index_)
    out.append(dict(n=2, f=1, graphs=[], others=[], penalty=0, thr=0, expect="ValueError", out=o[1] if o[0] == "err" else "ok", rank=[], p=[], what="unfitted"))
    return out


def check(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS BestIsFirstTop ChoiceMade NeverLarger OnlySimilar NoSmaller Symmetric NotItself\n"
    ex = dict(extra=("-seed", str(ctx.seed)))
    ctx.design("MCTuning", "CONSTANTS NV = 3\nNC = 2\nPOOL = %d\n" % ctx.n(30, 300) + inv + "PROPERTY Terminates\n", name="MCTuning2", **ex)
    ctx.design("MCTuning", "CONSTANTS NV = 3\nNC = 3\nPOOL = %d\n" % ctx.n(3, 20) + inv, name="MCTuning3", **ex)
    ts = pmap(case, [(ctx.seed, k) for k in range(ctx.n(300, 3000))], chunk=4)
    ctx.cover["skipped: too close to call"] = sum(t is None for t in ts)
    ts = [t for t in ts if t]
    ctx.cover["with exact predictions"] = sum(t["stubbed"] for t in ts)
    ctx.cover["chosen other than the best"] = sum(t["out"] == "ok" and t["penalty"] and t["rank"][t["best"] - 1] < max(t["rank"]) for t in ts)
    ctx.judge("TuningTrace", "SPECIFICATION Spec\n", ts + errors(ctx), "tuning")
    for t in ts[:4]:
        ctx.sample({k: t[k] for k in ("rank", "size", "p", "best", "out")})
