"""CausalDataGenerator: histories of fits and generations (decided by the simulator specification)."""
import numpy as np
from .common import *
from .c14 import Fixed, FixedClass, HAD


class F2(Fixed):
    def predict(self, X):
        return np.asarray(X).astype(float) @ np.asarray(self.coef, float) + self.b


class C2(FixedClass):
    def predict(self, X):
        return (np.asarray(X).astype(float) @ np.asarray(self.coef, float) + self.b >= 0).astype(int)


def lit(form, e, cat=False):
    """the same values as array, list, column or (for numbers) floats"""
    return [e.copy(), e.tolist(), e.astype(float) if not cat else e.copy()][form]


def make_fit(rng, gen, invalid):
    import pandas as pd
    na = int(rng.integers(0, 4))
    n = 2 + na
    exact = rng.random() < .4
    m = 8 if exact else int(rng.integers(3, 8))
    w = np.zeros((n, n), int)
    w[0, 2:] = rng.integers(-2, 3, na)
    w[1, 2:] = rng.integers(-2, 3, na)
    w[1, 0] = rng.integers(-2, 3)
    b = rng.integers(-3, 4, n)
    disc = np.zeros(n, bool)
    if not exact and rng.random() < .4:
        disc[:] = rng.random(n) < .5
    par = [list(range(2, n)), [0] + list(range(2, n))] + [[] for _ in range(na)]
    if exact:
        cols = rng.permutation(7)[:n] + 1
        X = np.zeros((8, n), int)
        for v in list(range(2, n)) + [0, 1]:
            X[:, v] = X @ w[v] + b[v] + HAD[:, cols[v]] * int(rng.integers(1, 4))
    else:
        X = rng.integers(-4, 5, (m, n))
        X[:, disc] = rng.integers(0, 2, (m, int(disc.sum())))
        for v in np.where(disc)[0]:
            X[:2, v] = [0, 1]
    names = [f"{c}" for c in rng.permutation(["x", "y", "a1", "b", "zz", "c 3"])[:n]]
    extra = int(rng.integers(0, 2))
    df = pd.DataFrame(X.astype(float) if rng.random() < .7 else X, columns=names)
    for v in np.where(disc)[0]:
        df[names[v]] = pd.Categorical(X[:, v])
    if extra:
        df["unused"] = rng.integers(0, 5, m)
    df = df[[df.columns[i] for i in rng.permutation(len(df.columns))]]
    if rng.random() < .3:
        df.index = rng.permutation(m) + 10
    kw = {}
    if not exact:
        if na:
            kw["model_cause"] = (C2 if disc[0] else F2)(coef=w[0, par[0]].tolist(), b=int(b[0]))
        kw["model_effect"] = (C2 if disc[1] else F2)(coef=w[1, par[1]].tolist(), b=int(b[1]))
    adj = [names[v] for v in range(2, n)]
    if na or rng.random() < .5:
        kw["adjustments"] = adj if rng.random() < .5 else np.array(adj, dtype=object)
    args = [df, names[0], names[1]]
    if invalid:
        how = int(rng.integers(5))
        if how == 0:
            args[0] = df.values
        elif how == 1:
            args[1] = "nobody"
        elif how == 2:
            args[2] = "nobody"
        elif how == 3:
            kw["model_effect"] = F2(coef=[1]) if disc[1] else C2(coef=[1])
        else:
            kw["adjustments"] = ["nobody"]
    d0 = df.copy()
    o = observe(lambda: gen.fit(*args, **kw))
    op = {"op": "train", "valid": not invalid, "X": X.tolist(), "lags": 0, "par": [[q + 1 for q in p] for p in par],
          "w": w.tolist(), "b": b.tolist(), "disc": disc.tolist(), "names": [[q + 1 for q in p] for p in par],
          "resid": [[] if disc[v] else X[:, v].tolist() for v in range(n)],
          "out": "ok" if o[0] == "ok" else o[1], "msg": "" if o[0] == "ok" else o[2], "mutated": not d0.equals(df)}
    if o[0] == "ok" and not invalid:
        for v, e in ((0, gen.error_cause_), (1, gen.error_effect_)):
            if not disc[v]:
                r = imat(np.asarray(e, float).reshape(1, -1))
                op["resid"][v] = r[0] if r else []
    return op, {"names": names, "n": n, "disc": disc, "rows": m, "par": par, "index": list(df.index),
                "cols": [c for c in df.columns if c in names]}


def make_run(rng, gen, info, invalid):
    names, n, disc, rows = info["names"], info["n"], info["disc"], info["rows"]
    op = {"op": "run", "valid": not invalid, "exog": [], "fix": [], "chg": [], "shuf": False, "same": True}
    kw, keep = {}, []
    if rng.random() < .5:
        d = {}
        for v in range(n):
            if rng.random() < .4:
                if disc[v] and v < 2 or disc[v] and rng.random() < .5:
                    continue
                e = rng.integers(0, 2, rows) if disc[v] else rng.integers(-9, 10, rows)
                d[names[v]] = lit(int(rng.integers(3)), e, disc[v])
                keep.append((d[names[v]], np.array(d[names[v]])))
                # the error of a variable without causes is its value
                op["fix" if v >= 2 else "exog"].append({"v": v + 1, "e": e.tolist()})
        kw["interv_exog"] = d
    if rng.random() < .5:
        d = {}
        for v in range(n):
            if rng.random() < .35:
                e = rng.integers(0, 2, rows) if disc[v] else rng.integers(-9, 10, rows)
                d[names[v]] = lit(int(rng.integers(3)), e, disc[v])
                keep.append((d[names[v]], np.array(d[names[v]])))
                op["fix"] = [f for f in op["fix"] if f["v"] != v + 1] + [{"v": v + 1, "e": e.tolist()}]
        kw["interv_endog"] = d
    for v, nm in ((0, "cause_model"), (1, "effect_model")):
        if rng.random() < .3 and info["par"][v]:
            wr = np.zeros(n, int)
            wr[info["par"][v]] = rng.integers(-2, 3, len(info["par"][v]))
            bb = int(rng.integers(-3, 4))
            cols = [names[q] for q in info["par"][v]]

            def f(X, error, a, wr=wr, v=v, cols=cols):
                assert list(X.columns) == cols
                z = X.astype(float).values @ wr[info["par"][v]] + a["b"]
                return (z >= 0).astype(int) if disc[v] else z + np.asarray(error, float)
            kw[nm], kw[nm + "_args"] = f, {"b": bb}
            op["chg"].append({"v": v + 1, "par": [q + 1 for q in info["par"][v]], "w": wr.tolist(), "b": bb})
    if invalid:
        kw = [{"interv_exog": {"nobody": np.zeros(rows)}}, {"interv_endog": {names[1]: np.zeros(rows + 1)}}, {"interv_exog": [1]},
              {"cause_model": 3}, {"effect_model": "f"}, {"effect_model": lambda *a: 1 / 0}, {"interv_endog": 5}][int(rng.integers(7))]
        op["exog"], op["chg"], op["fix"] = [], [], []
    o = observe(lambda: gen.generate(**kw))
    op["out"] = "ok" if o[0] == "ok" else o[1]
    op["msg"] = "" if o[0] == "ok" else o[2]
    op["sim"] = []
    if o[0] == "ok" and not invalid:
        df = o[1]
        try:
            S = imat(np.array(df[names].astype(float)).T)
            ok = list(df.columns) == info["cols"] and list(df.index) == info["index"]
        except Exception:
            S, ok = None, False
        op["sim"] = S if S is not None and ok else []
    op["mutated"] = any(not np.array_equal(np.array(a), b) for a, b in keep)
    return op


def one(seed):
    from lingam.experimental import CausalDataGenerator
    rng = np.random.default_rng(seed)
    gen = CausalDataGenerator(random_state=0)
    ops, info = [], None
    for _ in range(int(rng.integers(1, 3))):
        op, i2 = make_fit(rng, gen, rng.random() < .12)
        ops.append(op)
        if op["out"] == "ok" and op["valid"]:
            info = i2
        elif op["out"] == "ok":
            break
        if info:
            for _ in range(int(rng.integers(1, 4))):
                ops.append(make_run(rng, gen, info, rng.random() < .1))
    return {"ops": ops, "seed": list(seed)}


def categorical(seed):
    """drawn classes: reproducible, and as often as their probability says"""
    import pandas as pd
    from lingam.experimental import CausalDataGenerator
    from scipy.stats import binomtest
    rng = np.random.default_rng(seed)
    m = 400
    a = rng.normal(size=m)
    c = (rng.random(m) < 1 / (1 + np.exp(-2 * a))).astype(int)
    e = (rng.random(m) < 1 / (1 + np.exp(-a - c))).astype(int)
    df = pd.DataFrame({"a": a, "c": pd.Categorical(c), "e": pd.Categorical(e)})
    outs, ps = [], []
    for _ in range(2):
        g = CausalDataGenerator(random_state=int(seed[-1]))
        g.fit(df, "c", "e", ["a"])
        outs.append([g.generate() for _ in range(3)])
    if not all(x.equals(y) for x, y in zip(*outs)):
        return "same random_state, different data"
    if outs[0][0].equals(outs[0][1]):
        return "classes are not drawn anew"
    P = g.model_cause_.predict_proba(df[["a"]])[:, 1]
    hi, lo = P > .6, P < .4
    for sel in (hi, lo):
        k = sum(int((o["c"].astype(int).values[sel]).sum()) for o in outs[0])
        if binomtest(k, 3 * int(sel.sum()), float(P[sel].mean())).pvalue < 1e-7:
            return "classes do not follow their probabilities"
    return ""


def check(ctx):
    ctx.design("MCSimulator", "CONSTANTS NVar = 3\nSPECIFICATION Spec\nINVARIANTS SolvedAtEnd Locality NeverStuck OnlyAcyclicFinish\n")
    traces = pmap(one, [(ctx.seed, 15, i) for i in range(ctx.n(2500, 9000))], chunk=20)
    ctx.judge("SimulatorTrace", "SPECIFICATION Spec\n", traces, "generator")
    for i in range(ctx.n(3, 20)):
        o = observe(categorical, (ctx.seed, 150, i))
        if o != ("ok", ""):
            ctx.fail("categorical: " + str(o[1]), {"seed": [ctx.seed, 150, i], "got": str(o)})
    runs = [o for t in traces for o in t["ops"] if o["op"] == "run"]
    ctx.sample(traces[0])
    ctx.cover["generations"] = len(runs)
    ctx.cover["rule"] = ("random histories of fits and generations with 0..3 adjustment variables, numeric and categorical, default and given "
                         "models, interventions on errors and values, replaced models, unusable requests")
