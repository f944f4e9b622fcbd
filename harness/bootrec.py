"""Recording of bootstrap-result queries (shared by C09 and C10)."""
import numpy as np
from .common import *
from .c08 import fmat


def ints(v, scale=1):
    res = []
    for x in v:
        y = float(x) * scale
        if y != y:
            res.append(NAN)
        elif abs(y - round(y)) > 1e-6 or abs(y) > 2**30:
            res.append(NAN - 1)
        else:
            res.append(int(round(y)))
    return res


def guard(o, r, fn):
    """o = observe(...) ; fill r from o's value with fn, total."""
    if o[0] == "err":
        r["out"] = o[1]
        return r
    try:
        fn(o[1])
        r["out"] = "ok"
    except Exception as e:
        r["out"] = "malformed-" + type(e).__name__
    return r


SC = 1.0  # replicates handed to the code are SC times the integer matrices


def set_scale(sc):
    global SC
    SC = sc


def fm(B):
    return fmat(B) * SC


def mce(thr2):
    return {} if thr2 == 0 else {"min_causal_effect": thr2 / 2 * SC}


def rec_dir(call, Bs, thr2, split, top, pick=lambda v: v):
    kw = dict(mce(thr2))
    if split:
        kw["split_by_causal_effect_sign"] = True
    if top:
        kw["n_directions"] = top
    r = {"kind": "dir", "Bs": Bs, "thr2": thr2, "split": bool(split), "top": top,
         "from": [], "to": [], "sign": [], "count": []}
    n = len(Bs)

    def fill(v):
        v = pick(v)
        r["from"] = [int(x) + 1 for x in v["from"]]
        r["to"] = [int(x) + 1 for x in v["to"]]
        r["count"] = ints(v["count"])
        r["sign"] = [int(x) for x in v["sign"]] if split else [0] * len(r["to"])
        assert len(r["from"]) == len(r["to"]) == len(r["sign"])
        assert split or "sign" not in v
    return guard(observe(call, **kw), r, fill)


def rec_dag(call, Bs, thr2, split, top, pick=lambda v: v):
    kw = dict(mce(thr2))
    if split:
        kw["split_by_causal_effect_sign"] = True
    if top:
        kw["n_dags"] = top
    r = {"kind": "dag", "Bs": Bs, "thr2": thr2, "split": bool(split), "top": top, "dags": [], "count": []}

    def fill(v):
        v = pick(v)
        r["count"] = ints(v["count"])
        for d in v["dag"]:
            e = {"from": [int(x) + 1 for x in d["from"]], "to": [int(x) + 1 for x in d["to"]]}
            e["sign"] = [int(x) for x in d["sign"]] if split else [0] * len(e["to"])
            assert len(e["from"]) == len(e["to"]) == len(e["sign"])
            r["dags"].append(e)
    return guard(observe(call, **kw), r, fill)


def rec_prob(call, Bs, thr2, pick=None):
    r = {"kind": "prob", "Bs": Bs, "thr2": thr2, "split": False, "top": 0, "probs": []}

    def fill(v):
        blocks = pick(v) if pick else (list(v) if len(Bs[0][0]) > len(Bs[0]) else [v])
        r["probs"] = [[ints(row, len(Bs)) for row in np.asarray(b)] for b in blocks]
    return guard(observe(call, **mce(thr2)), r, fill)


def rec_tot(call, Ts, thr2):
    r = {"kind": "tot", "Bs": Ts, "thr2": thr2, "split": False, "top": 0,
         "from": [], "to": [], "count": [], "eff2": []}

    def fill(v):
        r["from"] = [int(x) + 1 for x in v["from"]]
        r["to"] = [int(x) + 1 for x in v["to"]]
        r["count"] = ints(v["probability"], len(Ts))
        r["eff2"] = ints(v["effect"], 2 / SC)
        assert len(r["from"]) == len(r["to"]) == len(r["count"]) == len(r["eff2"])
    return guard(observe(call, **mce(thr2)), r, fill)


def rec_path(call, args, Bs, q, thr2):
    """q: cls,n,p,t0,t1,fr,to with 1-based expanded node numbers."""
    r = dict({"kind": "path", "Bs": Bs, "thr2": thr2, "split": False, "top": 0,
              "paths": [], "count": [], "eff2": []}, **q)

    def fill(v):
        r["paths"] = [[int(x) + 1 for x in p] for p in v["path"]]
        r["count"] = ints(v["probability"], len(Bs))
        r["eff2"] = [ints([e], 2 / SC ** (len(p) - 1))[0] for e, p in zip(v["effect"], v["path"])]
        assert len(r["paths"]) == len(r["count"]) == len(r["eff2"])
    return guard(observe(call, *args, **mce(thr2)), r, fill)


def rec_reject(call, args, kw, Bs):
    o = observe(call, *args, **kw)
    return {"kind": "reject", "Bs": Bs, "thr2": 0, "split": False, "top": 0,
            "args": repr((args, kw)), "out": o[1] if o[0] == "err" else "ok"}


def rand_dag(rng, n, nan=0.0, dens=0.5, lo=-3, hi=3):
    p = rng.permutation(n)
    M = np.tril(rng.integers(lo, hi + 1, (n, n)) * (rng.random((n, n)) < dens), -1)[np.ix_(p, p)].tolist()
    if rng.random() < nan:
        i, j = rng.choice(n, 2, replace=False)
        M[i][j] = M[j][i] = NAN
    return M
