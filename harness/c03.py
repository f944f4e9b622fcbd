"""DirectLiNGAM / MultiGroupDirectLiNGAM: greedy search and coefficients refine the specification."""
import numpy as np
from .common import *
from . import oracles as O
from .direct_or import *


def one(args):
    seed, kind = args
    rng = np.random.default_rng(seed)
    import lingam
    wide = kind in ("wide", "widemulti")    # more variables than there are tables for: costs along the order only
    kind = {"wide": "single", "widemulti": "multi"}.get(kind, kind)
    large = kind == "large"         # the kernel measure has other parameters for large samples
    kind = "kernel" if large else kind
    n = int(rng.integers(2, 5)) if kind != "kernel" else 2 if large else int(rng.integers(2, 4))
    if wide:
        n = int(rng.integers(6, 14))
    G = int(rng.integers(2, 4 + wide)) if kind == "multi" else 1
    pkk = rng.choice(["none", "hard", "soft"]) if not large else "none"
    pk = np.full((n, n), -1)
    if pkk != "none":
        pk = rand_pk(rng, n, dens=rng.choice([.2, .4, .8]), consistent=wide or rng.random() < .7)
        if wide and not satisfiable(pk):
            pkk, pk = "none", np.full((n, n), -1)
    noise = None if rng.random() < .7 else ["gauss", "lap"]
    Xs = []
    for g in range(G):
        m = int(rng.integers(30, 200)) if kind != "kernel" else int(rng.integers(30, 70))
        m = int(rng.choice([1000, 1001, 1001, 1003])) if large else m
        X, B = O.sem(rng, n, m, dens=rng.choice([.3, .6, .9]), noise=noise, scale=rng.random() < .6)
        Xs.append(X)
    kw = {}
    if pkk != "none":
        kw = {"prior_knowledge": pk.copy()}
        if pkk == "soft":
            kw["apply_prior_knowledge_softly"] = True
    r = {"n": n, "pk": pk.tolist(), "mode": str(pkk), "kind": kind, "order": [], "seed": list(seed), "path": int(wide), "pset": []}
    if kind == "multi":
        o = observe(lambda: lingam.MultiGroupDirectLiNGAM(**kw).fit([x.copy() for x in Xs]))
    else:
        if kind == "kernel":
            kw["measure"] = "kernel"
        o = observe(lambda: lingam.DirectLiNGAM(**kw).fit(Xs[0].copy()))
    sizes = [len(x) for x in Xs] if G > 1 else [1]
    if wide:
        ok = o[0] == "ok" and sorted(int(v) for v in o[1].causal_order_) == list(range(n))
        order = [int(v) for v in o[1].causal_order_] if ok else list(range(n))
        psets = [[u for u in order[:order.index(v)] if pk[v, u] != 0] for v in range(n)]
        r["pset"] = [[u + 1 for u in P] for P in psets]
    tabs = [path_table(x, order) if wide else kernel_table(x) if kind == "kernel" else pw_table(x) for x in Xs]
    r["cost"], r["tol"] = int_tables(tabs, sizes)
    r["size"] = sizes
    if o[0] == "err":
        r["out"] = o[1]
        r["msg"] = o[2]
        r["rowok"] = []
        return r
    r["out"] = "ok"
    try:
        r["order"] = [int(v) + 1 for v in o[1].causal_order_]
        Bs = o[1].adjacency_matrices_ if kind == "multi" else [o[1].adjacency_matrix_]
        if len(Bs) != G:
            r["out"] = "wrong-number-of-matrices"
        r["rowok"] = [row_table(x, b, psets if wide else None) for x, b in zip(Xs, Bs)]
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
        r["rowok"] = []
    return r


def check(ctx):
    ctx.design("MCDirect", 'CONSTANTS N = 3\nMODES = {"none", "hard", "soft"}\nSPECIFICATION Spec\nINVARIANTS Partition Permutation HardRespected RejectedIffInconsistent\nPROPERTY Terminates\n')
    jobs = [((ctx.seed, 3, k, i), kind) for k, (kind, cnt) in enumerate([
        ("single", ctx.n(800, 3000)), ("multi", ctx.n(300, 1000)), ("kernel", ctx.n(150, 400)), ("large", ctx.n(16, 80)), ("wide", ctx.n(60, 400)), ("widemulti", ctx.n(24, 150))]) for i in range(cnt)]
    jobs.sort(key=lambda j: j[1] != "large")
    traces = pmap(one, jobs, chunk=2)
    ctx.judge("DirectTrace", "SPECIFICATION Spec\n", traces, "direct-search",
              describe=lambda t: {k: t[k] for k in ("kind", "mode", "pk", "order", "out", "seed")})
    t = traces[0]
    ctx.sample({k: t[k] for k in ("kind", "n", "mode", "pk", "order", "out", "tol")})
    ctx.cover["by_mode"] = {m: sum(1 for t in traces if t["mode"] == m) for m in ("none", "hard", "soft")}
    ctx.cover["rejected_prior_knowledge"] = sum(1 for t in traces if t["out"] == "ValueError")
    ctx.cover["rule"] = "random non-Gaussian data, 2..4 variables (6..13 along the recorded order), 1..4 data sets, random prior knowledge"
