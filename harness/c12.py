"""bootstrap_with_imputation follows its protocol."""
import numpy as np
from .common import *
from . import oracles as O
from .c11 import close
from .direct_or import rand_pk, satisfiable


def eq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def replay(job):
    """drive the real loop with collaborators that answer as scripted by TLC"""
    case, seed = job
    import lingam
    from lingam.tools import bootstrap_with_imputation, BaseMultipleImputation, BaseMultiGroupCDModel
    rng = np.random.default_rng(seed)
    m, n, K = 7, 3, 2
    X = rng.standard_normal((m, n))
    X[rng.random((m, n)) < .3] = np.nan
    X[0, 0], X[1, 1], X[2, 2] = np.nan, 1.5, .5
    log, keep = [], {"samples": [], "sent": [], "given": [], "answers": []}

    class Imp(BaseMultipleImputation):
        def fit_transform(self, S):
            i = len([e for e in log if e[0] == "impute"])
            log.append(["impute", i + 1])
            keep["given"].append(np.array(S))
            a = case["script"][i][0]
            if a == "rows":
                return [np.ones((m - 1, n))] * 2
            if a == "features":
                return [np.ones((m, n + 1))] * 2
            if a == "nan-left":
                out = [np.array(S) for _ in range(2)]
                out[0][0, 0] = np.nan       # also if the sample happens to be complete
                return out
            if a == "flat":
                return np.ones((m, n))
            out = []
            for r in range(int(a)):
                Z = np.array(S)
                Z[np.isnan(Z)] = rng.standard_normal(int(np.isnan(Z).sum()))
                out.append(Z)
            keep["sent"].append([z.copy() for z in out])
            return out

    class Cd(BaseMultiGroupCDModel):
        def before_imputation(self, S):
            log.append(["before", len([e for e in log if e[0] == "before"]) + 1])
            keep["samples"].append(np.array(S))

        def fit(self, Xs):
            i = len([e for e in log if e[0] == "fit"])
            log.append(["fit", i + 1])
            keep.setdefault("fitted", []).append([np.array(z) for z in Xs])
            b = case["script"][i][1]
            order = [int(v) for v in rng.permutation(n)]
            mats = [rng.standard_normal((n, n)) for _ in Xs]
            keep["answers"].append((list(order), [a.copy() for a in mats]))
            if b == "not-a-tuple":
                return [order, mats]
            if b == "three":
                return order, mats, 1
            if b == "duplicate":
                return [0, 0, 1], mats
            if b == "short":
                return [0, 1], mats
            if b == "shape":
                return order, [a[:2, :2] for a in mats]
            if b == "nan-matrix":
                mats[0][0, 1] = np.nan
                return order, mats
            return order, mats
    X0 = X.copy()
    o = observe(lambda: bootstrap_with_imputation(X, K, imp=Imp(), cd_model=Cd(), random_state=int(rng.integers(1000))))
    bad = []
    want = case["st"]
    if want == "ValueError":
        if o[:2] != ("err", "ValueError"):
            bad.append("contract violation not rejected: %s" % (o[1] if o[0] == "err" else "returned"))
    elif o[0] != "ok":
        bad.append("unexpected %s %s" % (o[1], o[2]))
    if log != case["log"]:
        bad.append("calls %s" % log)
    if not eq(X, X0):
        bad.append("data modified")
    for i, S in enumerate(keep["given"]):
        if not (i < len(keep["samples"]) and eq(S, keep["samples"][i])):
            bad.append("imputer and model saw different samples")
    for i, Z in enumerate(keep.get("fitted", [])):
        if not (i < len(keep["sent"]) and len(Z) == len(keep["sent"][i]) and all(eq(a, b) for a, b in zip(Z, keep["sent"][i]))):
            bad.append("model fitted to data other than the imputed")
    if want == "done" and o[0] == "ok":
        try:
            orders, adjs, idx, imps = o[1]
            for i in case["out"]:
                i -= 1
                if not eq(orders[i], keep["answers"][i][0]):
                    bad.append("order of replicate %d" % (i + 1))
                if not eq(adjs[i], keep["answers"][i][1]):
                    bad.append("matrices of replicate %d" % (i + 1))
                if not eq(X0[np.asarray(idx[i])], keep["samples"][i]):
                    bad.append("indices of replicate %d" % (i + 1))
                for r, Z in enumerate(keep["sent"][i]):
                    if not eq(imps[i][r], np.where(np.isnan(keep["samples"][i]), Z, np.nan)):
                        bad.append("imputations of replicate %d" % (i + 1))
            if not len(orders) == len(adjs) == len(idx) == len(imps) == K:
                bad.append("number of replicates")
        except Exception as e:
            bad.append("malformed result %r" % e)
    return bad


def one(seed):
    rng = np.random.default_rng(seed)
    import lingam
    from lingam.tools import bootstrap_with_imputation
    n, m = int(rng.integers(2, 4)), int(rng.integers(25, 45))
    X = O.sem(rng, n, m, scale=True)[0]
    miss = rng.random((m, n)) < .12
    miss[0, 0] = True
    X[miss] = np.nan
    k = 26 if seed[-1] % 4 == 0 else 4
    rr = int(rng.integers(2, 4))
    kw = {}
    if rng.random() < .5:
        kw["prior_knowledge"] = rand_pk(rng, n, consistent=True)
        while not satisfiable(kw["prior_knowledge"]):       # no order meets it: refused by the fit
            kw["prior_knowledge"] = rand_pk(rng, n, consistent=True)
        kw["apply_prior_knowledge_softly"] = bool(rng.random() < .4)
    rs = int(rng.integers(10000))
    r = {"n": n, "m": m, "k": k, "r": rr, "seed": list(seed), "idx": [], "fits": [], "holes": [], "reps": [], "varied": 1, "again": 1, "intact": 1,
         "kw": {a: str(b) for a, b in kw.items()}}
    X0 = X.copy()
    run = lambda: bootstrap_with_imputation(X, k, n_repeats=rr, random_state=rs, **kw)
    o = observe(run)
    if o[0] == "err":
        r["out"], r["msg"] = o[1], o[2]
        return r
    try:
        r["out"] = "ok"
        orders, adjs, idx, imps = [np.asarray(v) for v in o[1]]
        r["intact"] = int(eq(X, X0))
        o2 = observe(run)
        r["again"] = int(o2[0] == "ok" and all(eq(a, b) for a, b in zip(o[1], o2[1])))
        r["idx"] = [[int(v) + 1 for v in i] for i in idx]
        for i in range(len(idx)):
            S = X0[idx[i]]
            r["reps"].append(len(imps[i]))
            r["holes"].append(int(all(np.array_equal(np.isnan(Z), ~np.isnan(S)) for Z in imps[i])))
            D = [np.where(np.isnan(S), Z, S) for Z in imps[i]]
            if np.isnan(S).any() and len(D) > 1 and eq(D[0], D[1]):
                r["varied"] = 0
            if not all(np.isfinite(d).all() for d in D):
                r["fits"].append(0)
                continue
            F = observe(lambda: lingam.MultiGroupDirectLiNGAM(**kw).fit(D))
            r["fits"].append(int(F[0] == "ok" and list(F[1].causal_order_) == [int(v) for v in orders[i]]
                                 and close(np.array(F[1].adjacency_matrices_), adjs[i])))
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
        r["msg"] = str(e)[:200]
    return r


def check(ctx):
    cases = ctx.generate("MCImputation", "CONSTANTS K = 2\nREPEATS = {2, 3}\nSPECIFICATION Spec\nINVARIANTS Ordered AllOrNothing Emit\nPROPERTY Ends\n", name="MCImputation", workers=1)
    seen, uniq = set(), []
    for c in cases:
        key = json.dumps(c, sort_keys=True)
        if key not in seen:
            seen.add(key)
            uniq.append(c)
    jobs = [(c, (ctx.seed, 12, j, i)) for i, c in enumerate(uniq) for j in range(ctx.n(4, 20))]
    for (c, s), bad in zip(jobs, pmap(replay, jobs, chunk=8)):
        ctx.traces += 1
        for b in bad[:3]:
            ctx.fail("imputation protocol: " + b, {"script": c["script"], "expected_calls": c["log"], "expected": c["st"], "seed": s})
    traces = pmap(one, [(ctx.seed, 12, i) for i in range(ctx.n(160, 600))], chunk=1)
    ctx.judge("ImputationTrace", "SPECIFICATION Spec\n", traces, "imputation-default",
              describe=lambda t: {k: t.get(k) for k in ("n", "m", "k", "r", "kw", "out", "msg", "seed")})
    # inputs the function must refuse
    X = np.ones((5, 2))
    for a in ({"n_sampling": 0}, {"n_sampling": -1}, {"n_repeats": 0}, {"imp": object()}, {"cd_model": object()},
              {"prior_knowledge": np.zeros((3, 3))}):
        kw = dict({"n_sampling": 1}, **a)
        from lingam.tools import bootstrap_with_imputation
        o = observe(lambda: bootstrap_with_imputation(X, **kw))
        if o[:2] != ("err", "ValueError"):
            ctx.fail("invalid argument accepted", {"args": str(a), "got": str(o)[:100]})
    ctx.sample(uniq[0])
    ctx.cover["scripts_replayed"] = len(jobs)
    ctx.cover["rule"] = "every behaviour of the protocol for 2 replicates, answers of 2 or 3 data sets or any contract violation; default collaborators sampled"
