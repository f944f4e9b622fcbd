"""Bootstrap summaries: direction counts, graph counts, probabilities, total effects, paths."""
import itertools
import numpy as np
from .common import *
from .bootrec import *


def all_queries(rng, res, Bs, Ts, traces, full):
    combos = [(h, s, k) for h in (0, 1, 2, 3, 4) for s in (0, 1) for k in (0, 1, 2, 3)]
    if not full:
        combos = [combos[i] for i in rng.choice(len(combos), 3, replace=False)]
    for h, s, k in combos:
        traces.append(rec_dir(res.get_causal_direction_counts, Bs, h, s, k))
        traces.append(rec_dag(res.get_directed_acyclic_graph_counts, Bs, h, s, k))
    for h in sorted({c[0] for c in combos}):
        traces.append(rec_prob(res.get_probabilities, Bs, h))
        if Ts is not None:
            traces.append(rec_tot(res.get_total_causal_effects, Ts, h))


def rejections(res, Bs, traces, path_args):
    for v in (0, -1, -0.5):
        traces.append(rec_reject(res.get_causal_direction_counts, (), {"min_causal_effect": v}, Bs))
        traces.append(rec_reject(res.get_directed_acyclic_graph_counts, (), {"min_causal_effect": v}, Bs))
        traces.append(rec_reject(res.get_probabilities, (), {"min_causal_effect": v}, Bs))
        traces.append(rec_reject(res.get_total_causal_effects, (), {"min_causal_effect": v}, Bs))
        traces.append(rec_reject(res.get_paths, path_args, {"min_causal_effect": v}, Bs))
    for v in (0, -2, 1.5, "1"):
        traces.append(rec_reject(res.get_causal_direction_counts, (), {"n_directions": v}, Bs))
        traces.append(rec_reject(res.get_directed_acyclic_graph_counts, (), {"n_dags": v}, Bs))


def lagged(rng, n, k, dens=0.4):
    M = rand_dag(rng, n, dens=dens)
    for _ in range(k):
        blk = rng.integers(-3, 4, (n, n)) * (rng.random((n, n)) < dens)
        M = [a + b for a, b in zip(M, blk.tolist())]
    return M


def check(ctx):
    import lingam
    ctx.design("MCBootStats", "CONSTANTS R = %d\nW <- W4\nSPECIFICATION Spec\nINVARIANTS DagsPartitionReplicates EdgeCountIsDagCount UnsplitIsSumOfSigns\n" % ctx.n(2, 3))
    rng = ctx.rng
    traces = []
    # every pair / triple of 2-node replicates over a small weight set
    W = [0, 1, -2, NAN]
    mats = [[[0, a], [b, 0]] for a in W for b in W]
    for Bs in itertools.product(mats, repeat=2):
        Bs = list(Bs)
        Ts = [[[0, m[0][1]], [m[1][0], 0]] for m in Bs]
        res = lingam.BootstrapResult(np.array([fm(b) for b in Bs]), np.array([fm(t) for t in Ts]))
        all_queries(rng, res, Bs, Ts, traces, False)
    for k in range(ctx.n(300, 1200)):
        set_scale([1.0, 0.25][k % 2])
        n, R = int(rng.integers(2, 5)) if k % 10 else 11, int(rng.integers(1, 7)) if k % 15 != 5 else int(rng.integers(20, 45))
        pool = [rand_dag(rng, n, nan=.3, dens=.5 if n < 9 else rng.choice([.1, .6])) for _ in range(int(rng.integers(1, 5)) if R < 9 else int(rng.integers(12, 30)))]
        Bs = [pool[int(rng.integers(len(pool)))] for _ in range(R)]
        Ts = [(rng.integers(-4, 5, (n, n)) * (rng.random((n, n)) < .5)).tolist() for _ in range(R)]
        if rng.random() < .3:
            i, j = rng.choice(n, 2, replace=False)
            Ts[0][i][j] = NAN
        adj = np.array([fm(b) for b in Bs])
        res = lingam.BootstrapResult(adj, np.array([fm(t) for t in Ts]))
        keep = adj.copy()
        all_queries(rng, res, Bs, Ts, traces, k < 4)
        if n > 9 or R > 9:
            s, top = int(rng.integers(2)), int(rng.integers(10, 80))
            traces.append(rec_dir(res.get_causal_direction_counts, Bs, 0, s, top))
            traces.append(rec_dag(res.get_directed_acyclic_graph_counts, Bs, 0, s, top))
        # the queries do not disturb each other or the stored replicates
        if not np.array_equal(keep, res.adjacency_matrices_, equal_nan=True):
            ctx.fail("summaries changed the stored replicates", {"Bs": Bs})
        if k % 25 == 0:
            rejections(res, Bs, traces, (0, 1))
    # the lagged and the longitudinal result classes
    for k in range(ctx.n(120, 500)):
        set_scale([1.0, 0.25][(k // 2) % 2])
        n, L, R = int(rng.integers(2, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 6))
        Bs = [lagged(rng, n, L) for _ in range(R)]
        if rng.random() < .5:
            Bs[-1] = [list(row) for row in Bs[0]]
        Ts = [(rng.integers(-4, 5, (n, n * (L + 1))) * (rng.random((n, n * (L + 1))) < .4)).tolist() for _ in range(R)]
        A, S = np.array([fm(b) for b in Bs]), np.array([fm(t) for t in Ts])
        res = lingam.VARBootstrapResult(A, S) if k % 2 else lingam.VARMABootstrapResult(A, S, (L, 0))
        all_queries(rng, res, Bs, Ts, traces, k < 2)
        if k < 2:
            rejections(res, Bs, traces, (0, 1, 1, 0))
    set_scale(1.0)
    for k in range(ctx.n(100, 400)):
        n, L, R, TT = int(rng.integers(2, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.integers(2, 4))
        A = np.zeros((R, TT, L + 1, n, n))
        for r in range(R):
            for t in range(TT):
                A[r, t] = np.array(lagged(rng, n, L, .35), dtype=float).reshape(n, L + 1, n).transpose(1, 0, 2)
        if rng.random() < .5:
            A[:, 0, 1:] = np.nan
        S = rng.integers(-3, 4, (R, n * TT, n * TT)) * (rng.random((R, n * TT, n * TT)) < .3)
        res = lingam.LongitudinalBootstrapResult(TT, A, S.astype(float))
        h, s, top = int(rng.integers(0, 5)), int(rng.integers(0, 2)), int(rng.integers(0, 4))
        for t in range(TT):
            Bs = [imat(np.concatenate(list(A[r, t]), axis=1)) for r in range(R)]
            traces.append(rec_dir(res.get_causal_direction_counts, Bs, h, s, top, pick=lambda v: v[t]))
            traces.append(rec_dag(res.get_directed_acyclic_graph_counts, Bs, h, s, top, pick=lambda v: v[t]))
            traces.append(rec_prob(res.get_probabilities, Bs, h, pick=lambda v: list(v[t])))
        traces.append(rec_tot(res.get_total_causal_effects, [imat(x) for x in S], h))
        if k < 1:
            rejections(res, Bs, traces, (0, 1, 0, 1))
    ctx.judge("BootTrace", "SPECIFICATION Spec\n", traces, "bootstrap-summary")
    kinds = {}
    for t in traces:
        kinds[t["kind"]] = kinds.get(t["kind"], 0) + 1
    ctx.cover["queries_by_kind"] = kinds
    ctx.sample({"recorded": traces[0]})
    ctx.cover["rule"] = "all pairs of 2-variable replicates over {0,1,-2,NaN} plus random replicate lists"
