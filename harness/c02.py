"""Prior knowledge is honoured by every method that accepts it."""
import numpy as np
from .common import *
from . import oracles as O
from .direct_or import rand_pk
from .c01 import blocks


def fill(t, order, mats):
    bl = blocks(order)
    t["level"] = [0] * t["n"]
    for k, b in enumerate(bl):
        for v in b:
            t["level"][v - 1] = k + 1
    t["free"] = bl[0] if bl and len(bl[0]) > 1 else []
    t["mats"] = [[[0 if x == NAN else x for x in r] for r in smat(B)] for B in mats]
    if sorted(v for b in bl for v in b) != list(range(1, t["n"] + 1)):
        t["out"] = "order-not-a-permutation"


def trace(kind, n, pk, mode, seed):
    return {"kind": kind, "n": n, "pk": np.asarray(pk).tolist(), "mode": mode, "out": "ok", "seed": list(seed),
            "level": [0] * n, "free": [], "mats": [], "exo": [], "sinks": [], "paths": [], "nopaths": [], "got": []}


def fit(kind, pk, mode, rng, X=None):
    import lingam
    n = len(pk)
    mk = lambda m: O.sem(rng, n, m, dens=.7, scale=rng.random() < .5)[0] if X is None else X
    if kind == "direct":
        me = "kernel" if rng.random() < .1 and n < 4 and X is None else "pwling"
        f = lingam.DirectLiNGAM(prior_knowledge=pk.copy(), apply_prior_knowledge_softly=mode == "soft",
                                measure=me).fit(mk(40 if me == "kernel" else 60))
        return f.causal_order_, [f.adjacency_matrix_]
    if kind == "multi":
        f = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk.copy(), apply_prior_knowledge_softly=mode == "soft").fit([mk(40), mk(60)])
        return f.causal_order_, f.adjacency_matrices_
    if kind == "parce":
        f = lingam.BottomUpParceLiNGAM(prior_knowledge=pk.copy(), alpha=float(rng.choice([0, .1, .6])),
                                       independence=str(rng.choice(["hsic", "fcorr"]))).fit(mk(40))
        return f.causal_order_, [f.adjacency_matrix_]


def one(a):
    seed, kind, pk0 = a
    rng = np.random.default_rng(seed)
    np.random.seed(int(rng.integers(1 << 31)))
    import lingam
    if kind == "make":
        n = int(rng.integers(1, 6))
        pick = lambda: [int(v) for v in range(n) if rng.random() < .25]
        prs = lambda: [(int(a), int(b)) for a in range(n) for b in range(n) if a != b and rng.random() < .2]
        ex, sk, pa, no = pick(), pick(), prs(), prs()
        kw = {}
        for k, v in (("exogenous_variables", ex), ("sink_variables", sk), ("paths", pa), ("no_paths", no)):
            if v or rng.random() < .5:
                kw[k] = v if rng.random() < .7 or not v else (tuple(v) if rng.random() < .5 else np.array(v).tolist())
        t = trace("make", n, np.full((n, n), -1), "none", seed)
        t.update(exo=[v + 1 for v in ex], sinks=[v + 1 for v in sk], paths=[[a + 1, b + 1] for a, b in pa],
                 nopaths=[[a + 1, b + 1] for a, b in no])
        o = observe(lingam.utils.make_prior_knowledge, n, **kw)
        if o[0] == "ok":
            t["got"] = np.asarray(o[1]).astype(int).tolist()
        else:
            t["out"] = o[1]
        return [t]
    if kind == "longitudinal":
        n, T, L = int(rng.integers(2, 4)), int(rng.integers(2, 5)), int(rng.integers(1, 3))
        L = min(L, T - 1)
        pk = np.full((T, L + 1, n, n), -1)
        for t in range(T):
            if rng.random() < .7:
                pk[t, 0] = rand_pk(rng, n, dens=.5, consistent=rng.random() < .8)
            for l in range(1, L + 1):
                if rng.random() < .6:
                    pk[t, l] = np.where(rng.random((n, n)) < .4, rng.integers(0, 2, (n, n)), -1)
        Xs = [O.sem(rng, n, 50)[0]]
        for _ in range(T - 1):
            Xs.append(Xs[-1] @ rng.uniform(-.6, .6, (n, n)) + O.sem(rng, n, 50)[0])
        o = observe(lambda: lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=pk.copy()).fit([x.copy() for x in Xs]))
        res = []
        contr = any(((pk[t, 0] == 1) & (pk[t, 0].T == 1)).any() for t in range(T))
        cyc = any(cyclic(pk[t, 0]) for t in range(T))
        for t in range(L, T):
            r = trace(kind, n, pk[t, 0], "hard", seed)
            if o[0] == "err":
                if contr or cyc:     # rejected because of some time point: judged there
                    if not cyclic(pk[t, 0]):
                        continue
                r["out"] = o[1]
                res.append(r)
                continue
            fill(r, o[1].causal_orders_[t], [o[1].adjacency_matrices_[t][0]])
            res.append(r)
            for l in range(1, L + 1):
                q = trace("lagged", n, np.where(pk[t, l] == 0, 0, -1), "soft", seed)
                B = o[1].adjacency_matrices_[t][l]
                q["mats"] = [[[int(np.nan_to_num(B[i, j]) != 0) for j in range(n)] for i in range(n)]]
                # the diagonal counts for lagged effects: shift it out of the way of the matrix clause
                if any(pk[t, l][i, i] == 0 and np.nan_to_num(B[i, i]) != 0 for i in range(n)):
                    q["out"] = "forbidden-lagged-edge"
                res.append(q)
        if o[0] == "ok" and contr and L == 0:
            pass
        return res
    if kind in ("camuv", "mcamuv"):
        n = int(rng.integers(2, 4))
        prs = [(a, b) for a in range(n) for b in range(n) if a != b and rng.random() < .4]
        pk = np.full((n, n), -1)
        for a, b in prs:
            pk[b, a] = 0
        mk = lambda: O.sem(rng, n, 60, dens=.9)[0]
        t = trace(kind, n, pk, "edges", seed)
        if kind == "camuv":
            o = observe(lambda: lingam.CAMUV(prior_knowledge=prs, num_explanatory_vals=n, alpha=.05).fit(mk()).adjacency_matrix_)
        else:
            o = observe(lambda: lingam.MultiGroupCAMUV(prior_knowledge=prs, num_explanatory_vals=n, alpha=.05).fit([mk(), mk()]).adjacency_matrix_)
        if o[0] == "err":
            t["out"] = o[1]
        else:
            t["mats"] = [[[0 if x == NAN else x for x in r] for r in smat(o[1])]]
        return [t]
    mode = "hard"
    if pk0 is not None:
        pk = np.array(pk0)
    else:
        n = int(rng.integers(2, 6))
        pk = rand_pk(rng, n, dens=rng.choice([.1, .3, .6]), consistent=rng.random() < .75)
        mode = "soft" if kind != "parce" and rng.random() < .2 else "hard"
    t = trace(kind, len(pk), pk, mode, seed)
    o = observe(fit, kind, pk, mode, rng)
    if o[0] == "err":
        t["out"], t["msg"] = o[1], o[2]
    else:
        try:
            fill(t, *o[1])
        except Exception as e:
            t["out"] = "malformed-" + type(e).__name__
    return [t]


def cyclic(pk):
    n = len(pk)
    R = np.zeros((n, n), bool)
    for t in range(n):
        for f in range(n):
            if pk[t, f] == 1:
                R[f, t] = 1
            if t != f and pk[t, f] == 0 and pk[f, t] != 0:
                R[t, f] = 1
    for k in range(n):
        R |= np.outer(R[:, k], R[k])
    return bool(R.diagonal().any())


def replay(a):
    """one prior knowledge matrix of the exhaustive enumeration: the orders the spec can reach vs the code"""
    i, pk, orders, rej, seed = a
    rng = np.random.default_rng([seed, 2, 77, i])
    import lingam
    bad = []
    X = O.sem(rng, len(pk), 50, dens=.8)[0]
    o = observe(lambda: lingam.DirectLiNGAM(prior_knowledge=np.array(pk)).fit(X).causal_order_)
    got = tuple(int(v) + 1 for v in o[1]) if o[0] == "ok" else o[1]
    if got == "ValueError" and rej:
        return None
    if got in orders:
        return None
    return {"pk": pk, "got": got, "allowed": sorted(orders), "may_reject": rej}


def check(ctx):
    ctx.design("MCBottomUp", 'CONSTANTS N = 3\nMODES = {"hard"}\nSPECIFICATION Spec\nINVARIANTS HardRespected NoCandOnlyIfCyclic\n')
    cases = ctx.generate("MCDirect", 'CONSTANTS N = 3\nMODES = {"hard"}\nSPECIFICATION Spec\nINVARIANTS HardRespected RejectedIffInconsistent Emit\n')
    table = {}
    for c in cases:
        e = table.setdefault(json.dumps(c["pk"]), [set(), False])
        if c["st"] == "ValueError":
            e[1] = True
        else:
            e[0].add(tuple(c["K"]))
    rounds = ctx.n(2, 6)
    jobs = [(r * 10000 + i, json.loads(k), v[0], v[1], ctx.seed) for r in range(rounds) for i, (k, v) in enumerate(sorted(table.items()))]
    for r in pmap(replay, jobs, chunk=16):
        if r:
            ctx.fail("order-not-reachable-in-the-specification", r)
    ctx.traces += len(jobs)
    ctx.cover["prior_knowledge_matrices_replayed"] = len(table)
    allpk = [json.loads(k) for k in sorted(table)]
    jobs = []
    for k, (kind, c) in enumerate({"make": (600, 3000), "longitudinal": (200, 600), "camuv": (30, 120), "mcamuv": (10, 40),
                                   "direct": (800, 3000), "multi": (300, 1000), "parce": (400, 1000)}.items()):
        jobs += [((ctx.seed, 2, k, i), kind, None) for i in range(ctx.n(*c))]
    pick = allpk if ctx.thorough else [allpk[i] for i in ctx.rng.choice(len(allpk), 120, replace=False)]
    jobs += [((ctx.seed, 2, 20, i), "parce", pk) for i, pk in enumerate(pick)]
    jobs += [((ctx.seed, 2, 21, i), "multi", pk) for i, pk in enumerate(pick)]
    res = pmap(one, sorted(jobs, key=lambda j: j[1] not in ("camuv", "mcamuv", "parce")), chunk=2)
    traces = [t for r in res for t in r]
    ctx.judge("PKTrace", "SPECIFICATION Spec\n", traces, "prior-knowledge",
              describe=lambda t: {k: t[k] for k in ("kind", "mode", "pk", "level", "free", "mats", "out", "seed")})
    ctx.cover["by_kind"] = {k: sum(t["kind"] == k for t in traces) for k in sorted({t["kind"] for t in traces})}
    ctx.cover["rejected"] = sum(t["out"] == "ValueError" for t in traces)
    for t in traces[:4]:
        ctx.sample({k: t[k] for k in ("kind", "mode", "pk", "level", "out")})
    ctx.assumptions.append("constraints that are cyclic without a direct contradiction may be rejected or leave the order open")
