"""Graph queries: paths, total effects, sinks, exogenous variables, distances."""
import itertools
import numpy as np
from .common import *

PCFG = """CONSTANTS N = %d
W <- %s
THR = {%s}
SELF = %s
SPECIFICATION Spec
INVARIANTS FoundAreRealPaths NoDuplicates Complete CyclicExactly
CONSTRAINT Emit
"""


def fmat(B):
    return np.array([[np.nan if v == NAN else v for v in r] for r in B], dtype=float)


def rec_paths(B, fr, to, thr2):
    from lingam.utils import find_all_paths
    o = observe(find_all_paths, fmat(B), fr, to, min_causal_effect=thr2 / 2)
    r = {"kind": "paths", "B": B, "fr": fr + 1, "to": to + 1, "thr2": thr2}
    if o[0] == "err":
        r.update(out=o[1], paths=[], effects=[])
        return r
    try:
        ps, ef = o[1]
        r.update(out="ok", paths=[[int(x) + 1 for x in p] for p in ps],
                 effects=[NAN if e != e else int(round(float(e))) for e in ef])
        if any(e == e and abs(float(e) - round(float(e))) > 1e-9 for e in ef):
            r["out"] = "non-integer-effect"
    except Exception as e:
        r.update(out="malformed", paths=[], effects=[])
    return r


def rec_total(B, fr, to, cont):
    from lingam.utils import calculate_total_effect
    kw = {} if cont is None else {"is_continuous": [bool(c) for c in cont]}
    o = observe(calculate_total_effect, fmat(B), fr, to, **kw)
    r = {"kind": "total", "B": B, "fr": fr + 1, "to": to + 1, "thr2": 0,
         "cont": [1] * len(B) if cont is None else list(cont), "total": 0}
    if o[0] == "err":
        r["out"] = o[1]
    else:
        v = float(o[1])
        r["out"] = "ok" if abs(v - round(v)) < 1e-9 else "non-integer-total"
        r["total"] = int(round(v)) if v == v else NAN
    return r


def rec_query(B, maxd):
    from lingam.utils import get_sink_variables, get_exo_variables, calculate_distance_from_root_nodes
    F = fmat(B)
    keep = F.copy()
    a = observe(get_sink_variables, F)
    b = observe(get_exo_variables, F)
    c = observe(calculate_distance_from_root_nodes, F, **({} if maxd == 0 else {"max_distance": maxd}))
    same = np.array_equal(F, keep, equal_nan=True)
    r = {"kind": "query", "B": B, "maxd": maxd,
         "sinkout": a[0] if a[0] == "ok" else a[1], "exoout": b[0] if b[0] == "ok" else b[1],
         "distout": (c[0] if c[0] == "ok" else c[1]) if same else "input-mutated",
         "sinks": [int(x) + 1 for x in a[1]] if a[0] == "ok" else [],
         "exos": [int(x) + 1 for x in b[1]] if b[0] == "ok" else [], "dist": []}
    if c[0] == "ok":
        d = {int(k): [int(x) + 1 for x in v] for k, v in c[1].items()}
        if any(k < 0 or k > len(B) for k in d):
            r["distout"] = "bad-keys"
        else:
            r["dist"] = [d.get(k, []) for k in range(len(B) + 1)]
    return r


def check(ctx):
    # 1. spec -> code: every query on every 3-node graph, enumerated by TLC
    W = ctx.n("W3", "W4")
    runs = [(3, W, "0, 3", "FALSE"), (2, "WS", "0, 2", "TRUE")]
    if ctx.thorough:
        runs.append((4, "W2", "0", "FALSE"))
        runs.append((3, "W2", "0", "TRUE"))
    nb = 0
    for (n, w, thr, sl) in runs:
        cases = ctx.generate("MCPaths", PCFG % (n, w, thr, sl), name="all %d-node graphs" % n)
        if not cases:
            raise MachineryError("no cases")
        for c in cases:
            r = rec_paths(c["B"], c["fr"] - 1, c["to"] - 1, c["thr2"])
            nb += 1
            if c["st"] == "cyclic":
                ok = r["out"] == "ValueError"
            else:
                ok = r["out"] == "ok" and sorted(zip(map(tuple, r["paths"]), r["effects"])) == \
                    sorted(zip(map(tuple, c["found"]), c["eff"]))
            if not ok:
                ctx.fail("find_all_paths disagrees with the specification", {"case": c, "observed": r})
            if c["thr2"] == 0:
                r2 = rec_total(c["B"], c["fr"] - 1, c["to"] - 1, None)
                nb += 1
                ok = r2["out"] == "ValueError" if c["st"] == "cyclic" else \
                    (r2["out"] == "ok" and r2["total"] == c["total"])
                if not ok:
                    ctx.fail("total effect disagrees with the specification", {"case": c, "observed": r2})
        ctx.sample({"generated_case": cases[len(cases) // 2]})
    ctx.traces += nb
    ctx.cover["behaviours_replayed"] = nb

    # 2. code -> spec: larger random graphs (DAGs, cyclic graphs, NaN pairs, discrete variables)
    rng = ctx.rng
    traces = []
    for k in range(ctx.n(1500, 6000)):
        n = int(rng.integers(2, 8)) if k % 12 else int(rng.integers(10, 14))
        kind = rng.integers(0, 4)
        dens = rng.choice([0.2, 0.4, 0.7]) if n < 7 else 0.4 if n < 9 else .18
        M = rng.integers(-3, 4, size=(n, n)) * (rng.random((n, n)) < dens)
        if kind < 3:
            p = rng.permutation(n)
            M = np.tril(M, -1)[np.ix_(p, p)]
        B = M.tolist()
        for _ in range(int(rng.integers(0, 3))):
            i, j = rng.integers(0, n, 2)
            if i != j:
                B[i][j] = NAN
                if rng.random() < .7:
                    B[j][i] = NAN
        fr, to = (int(x) for x in rng.choice(n, 2, replace=False))
        thr2 = int(rng.choice([0, 0, 1, 2, 3, 4, 5]))
        if k % 30 == 7:
            # a long chain with a few short cuts
            n = int(rng.integers(9, 16))
            p = rng.permutation(n)
            B = [[0] * n for _ in range(n)]
            for a in range(n - 1):
                B[p[a + 1]][p[a]] = int(rng.choice([1, -1, 2] if a % 3 else [1, -1]))
            for _ in range(int(rng.integers(0, 4))):
                a, b = sorted(rng.choice(n, 2, replace=False))
                B[p[b]][p[a]] = 1
            a, b = int(rng.integers(0, 2)), n - 1 - int(rng.integers(0, 2))
            fr, to, thr2 = int(p[a]), int(p[b]), 0
        traces.append(rec_paths(B, fr, to, thr2))
        cont = None if rng.random() < .4 else [int(rng.random() < .75) for _ in range(n)]
        traces.append(rec_total(B, fr, to, cont))
        traces.append(rec_query(B, int(rng.choice([0, 0, 1, 2, 3]))))
    # exhaustive queries on 3 nodes with signed weights (cancellation!) and unknown pairs
    vals = [0, 1, -1, NAN] if ctx.thorough else [0, 1, -1]
    for t in itertools.product(vals, repeat=6):
        B = [[0, t[0], t[1]], [t[2], 0, t[3]], [t[4], t[5], 0]]
        traces.append(rec_query(B, 0))
    ctx.judge("GraphTrace", "SPECIFICATION Spec\n", traces, "graph-query")
    ctx.sample({"recorded": traces[0]})
    ctx.cover["rule"] = "generated: every (graph, from, to, threshold); recorded: random graphs with 2..7 nodes, sparse ones with up to 13 and chains with up to 15"
