"""Bootstrap path summaries, static and through time."""
import numpy as np
from .common import *
from .bootrec import *
from .c09 import lagged


def check(ctx):
    import lingam
    ctx.design("MCBootStats", "CONSTANTS R = 2\nW <- W4\nSPECIFICATION Spec\nINVARIANTS DagsPartitionReplicates EdgeCountIsDagCount UnsplitIsSumOfSigns\n")
    rng = ctx.rng
    traces = []
    thr = lambda: int(rng.choice([0, 0, 1, 2, 3]))
    for k in range(ctx.n(500, 2000)):
        set_scale([1.0, 0.25][k % 2])
        n, R = int(rng.integers(2, 7)) if k % 12 else 11, int(rng.integers(1, 7))
        pool = [rand_dag(rng, n, nan=.3, dens=.6 if n < 9 else .25) for _ in range(3)]
        Bs = [pool[int(rng.integers(3))] for _ in range(R)]
        res = lingam.BootstrapResult(np.array([fm(b) for b in Bs]), np.zeros((R, n, n)))
        fr, to = (int(x) for x in rng.choice(n, 2, replace=False))
        traces.append(rec_path(res.get_paths, (fr, to), Bs,
                               {"cls": "static", "n": n, "p": 0, "t0": 1, "t1": 1, "fr": fr + 1, "to": to + 1}, thr()))
    for k in range(ctx.n(600, 2000)):
        set_scale([1.0, 0.25][(k // 2) % 2])
        n, L, R = int(rng.integers(2, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 6))
        if n * (L + 1) > 9:
            L = 2
        dens = .35
        if k % 20 > 17:
            n, L, dens = int(rng.integers(3, 6)), int(rng.integers(3, 5)), .07
        varma = k % 2
        q = int(rng.integers(0, 3)) if varma else 0
        pool = [lagged(rng, n, L + q, dens) for _ in range(2)]
        Bs = [pool[int(rng.integers(2))] for _ in range(R)]
        A = np.array([fm(b) for b in Bs])
        res = lingam.VARMABootstrapResult(A, np.zeros((R, n, n)), (L, q)) if varma else \
            lingam.VARBootstrapResult(A, np.zeros((R, n, n)))
        fl = int(rng.integers(0, L + 1))
        tl = int(rng.integers(0, fl + 1))
        fr, to = (int(x) for x in rng.integers(0, n, 2))
        if fl == tl and fr == to:
            traces.append(rec_reject(res.get_paths, (fr, to, fl, tl), {}, Bs))
            continue
        if k < 12:
            traces.append(rec_reject(res.get_paths, (fr, to, 0, 1), {}, Bs))
        traces.append(rec_path(res.get_paths, (fr, to, fl, tl), Bs,
                               {"cls": "var", "n": n, "p": L, "t0": 1, "t1": 1,
                                "fr": fl * n + fr + 1, "to": tl * n + to + 1}, thr()))
    set_scale(1.0)
    for k in range(ctx.n(400, 1500)):
        n, L, R, TT = int(rng.integers(2, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.integers(2, 5))
        dens = .35
        if k % 20 == 19:
            n, L, TT, dens = int(rng.integers(3, 5)), int(rng.integers(1, 4)), int(rng.integers(5, 7)), .1
        A = np.zeros((R, TT, L + 1, n, n))
        for r in range(R):
            for t in range(TT):
                A[r, t] = np.array(lagged(rng, n, L, dens), dtype=float).reshape(n, L + 1, n).transpose(1, 0, 2)
        if rng.random() < .5:
            A[:, 0] = np.nan
        res = lingam.LongitudinalBootstrapResult(TT, A, np.zeros((R, n * TT, n * TT)))
        t0 = int(rng.integers(0, TT))
        t1 = int(rng.integers(t0, TT))
        if dens < .3:
            t0, t1 = int(rng.integers(0, 2)), TT - 1 - int(rng.integers(0, 2))
        fr, to = (int(x) for x in rng.integers(0, n, 2))
        Bs = [[[imat(A[r, t, l]) for l in range(L + 1)] for t in range(TT)] for r in range(R)]
        if t0 == t1 and fr == to:
            traces.append(rec_reject(res.get_paths, (fr, to, t0, t1), {}, Bs))
            continue
        if k < 12:
            traces.append(rec_reject(res.get_paths, (fr, to, 1, 0), {}, Bs))
        traces.append(rec_path(res.get_paths, (fr, to, t0, t1), Bs,
                               {"cls": "long", "n": n, "p": L, "t0": t0 + 1, "t1": t1 + 1,
                                "fr": fr + 1, "to": (t1 - t0) * n + to + 1}, thr()))
    ctx.judge("BootTrace", "SPECIFICATION Spec\n", traces, "bootstrap-paths")
    ctx.sample({"recorded": traces[0]})
    ctx.cover["non_empty_results"] = sum(1 for t in traces if t.get("paths"))
    ctx.cover["rule"] = "random replicate lists; static graphs of 2..6 variables, lagged and longitudinal stacks"
