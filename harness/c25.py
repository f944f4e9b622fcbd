"""Total effects and error independence of fitted models."""
import numpy as np
from .common import *
from . import oracles as O
from .c16 import lin, series, quiet
from .c17 import stub, dag


def asked(fn):
    """answer and whether it came with a warning that it may be incorrect"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = None
        try:
            with time_limit(60):
                r = ("ok", fn())
        except CaseTimeout:
            r = ("err", "Timeout", "")
        except Exception as e:
            r = ("err", type(e).__name__, str(e)[:200])
        return r, int(any("may be incorrect" in str(x.message) for x in w))


def base(kind, fam, seed):
    return {"kind": kind, "fam": fam, "seed": list(seed), "out": "ok", "msg": "", "am": [], "cols": [], "c": [], "c0": 0, "D": [[0]], "src": 1, "dst": 1, "fl": 0,
            "ans": 0, "warned": 0, "anc": [], "level": [1], "v1": 1, "v2": 1, "num": 1, "exact": 0, "B": [[0]], "P": [], "N": [], "undef": 0}


def ans(v, k=1000):
    v = float(v)
    return NAN if np.isnan(v) else int(np.rint(np.clip(v, -9e5, 9e5) * k))


def compose(rng, D, dst, src, fl, row, cols, tries=6):
    """integer series D with D[dst] made of the source and its causes; None if they are collinear"""
    m = len(D[0])
    pred = [(src, fl)] + [(cols[j][0], cols[j][1] + fl) for j in range(len(row)) if row[j] not in (0, NAN)]
    for _ in range(tries):
        D = rng.integers(-9, 10, D.shape)
        c0 = int(rng.integers(-5, 6))
        if (dst, 0) in pred:
            c = [(dst, 0, 1)]
            c0 = 0
        else:
            c = [(v, l, int(rng.integers(-4, 5)) if v != dst else 0) for v, l in pred]
            # samples whose history was not observed say nothing
            h = max(l for v, l in pred)
            D[dst, h:] = (c0 + sum((w * np.roll(D[v], l) for v, l, w in c if w), np.zeros(m, int)))[h:]
        Z = np.stack([np.roll(D[v], l) for v, l in pred], 1)[2 * max(l for v, l in cols):].astype(float)
        Z = Z - Z.mean(0)
        s = np.linalg.svd(Z, compute_uv=False)
        if s[-1] > 1e-6 * s[0] and len(pred) < m - 2:
            return D, c, c0
    return None


def te(t, rng, D, call, dst, src, fl, row, cols):
    """one estimate_total_effect query on data made after the fit"""
    t.update(src=src + 1, dst=dst + 1, fl=fl, am=row, cols=[[v + 1, l] for v, l in cols])
    if NAN in row:
        D = rng.integers(-9, 10, D.shape)
    else:
        x = compose(rng, D, dst, src, fl, row, cols)
        if x is None:
            return None
        D, c, t["c0"] = x
        t["c"] = [[v + 1, l, w] for v, l, w in c]
    r, t["warned"] = asked(lambda: call(D))
    t["D"] = D.tolist()
    if r[0] != "ok":
        t["out"], t["msg"] = r[1], r[2]
    else:
        try:
            t["ans"] = ans(r[1])
        except Exception as e:
            t["out"], t["msg"] = "answer-malformed", str(r[1])
    return t


def pathsum(B, f):
    n = len(B)
    x = np.zeros(n)
    e = np.eye(n)[f]
    for _ in range(n + 1):
        x = e + np.nan_to_num(B) @ x
    return x


def cyclic(B):
    A = (np.nan_to_num(B) != 0).astype(int)
    return np.trace(sum(np.linalg.matrix_power(A, k) for k in range(1, len(A) + 1))) > 0


def te2(t, call, B, src, dst, row, exact=False):
    t.update(src=src + 1, dst=dst + 1, am=row, B=[[int(v) if exact else int(v != 0) for v in r] for r in np.nan_to_num(B)], exact=int(exact))
    r, t["warned"] = asked(call)
    if r[0] != "ok":
        t["out"], t["msg"] = r[1], r[2]
        return t
    try:
        v = float(r[1])
        t["ans"] = ans(v)
        if 0 < abs(v) < 1e-3 or v == 0:
            t["ans"] = int(np.sign(v)) if not exact else t["ans"]
        if not np.isnan(v):
            t["num"] = int(np.isclose(v, pathsum(B, src)[dst], rtol=1e-7, atol=1e-12 * pathsum(np.abs(B), src)[dst]))
    except Exception:
        t["out"], t["msg"] = "answer-malformed", str(r[1])
    return t


def pv(t, call, E, N, pick=None):
    """p-values of the errors E"""
    n = E.shape[1]
    t["N"] = np.asarray(N).astype(int).tolist()
    t["undef"] = int(np.isnan(E).all() and not np.any(N))
    r, _ = asked(call)
    if r[0] != "ok":
        t["out"], t["msg"] = r[1], r[2]
        return t
    try:
        P = np.asarray(r[1] if pick is None else r[1][pick], float)
        assert P.shape == (n, n)
    except Exception:
        t["out"], t["msg"] = "answer-malformed", str(r[1])[:200]
        return t
    Q = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if np.isnan(P[i, j]):
                Q[i][j] = NAN
            elif i == j:
                Q[i][j] = 0 if P[i, j] == 0 else 2
            else:
                bad = np.isnan(E[:, [i, j]]).any()
                Q[i][j] = 2 if bad or not np.isclose(P[i, j], O.hsic(E[:, i], E[:, j])[1], rtol=1e-5, atol=1e-9) else 1
    t["P"] = Q
    return t


def pat(row):
    return [NAN if np.isnan(v) else int(v != 0) for v in row]


def levels(order, n):
    lv = [0] * n
    for k, o in enumerate(order):
        for v in (o if hasattr(o, "__iter__") else [o]):
            lv[int(v)] = k + 1
    return lv


def units(rng, n):
    """variables measured in very different units, now and then"""
    return 10.0 ** rng.integers(-4, 5, n) if rng.random() < .3 else np.ones(n)


def one(a):
    seed, fam = a
    import lingam
    rng = np.random.default_rng(seed)
    np.random.seed(int(rng.integers(1 << 30)))
    n = int(rng.integers(2, 6))
    if seed[-1] % 8 == 7 and fam in ("ICALiNGAM", "DirectLiNGAM", "HighDimDirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM"):
        n = int(rng.integers(9, 13 if fam[0] != "B" else 11))
    out = []
    m2 = 16 + 3 * n
    qs = [(int(f), int(t)) for f in range(n) for t in range(n) if f != t]
    rng.shuffle(qs)
    qs = [tuple(int(x) for x in p) for p in qs[:6]]
    if fam in ("ICALiNGAM", "DirectLiNGAM", "HighDimDirectLiNGAM", "BottomUpParceLiNGAM", "RCD", "MultiGroupDirectLiNGAM", "MultiGroupRCD", "RESIT"):
        k = int(rng.integers(30, 60)) * (2 if fam.endswith("RCD") or n > 8 else 1)
        X = lin(rng, 2 * k + 7, n + 1, "uniform" if rng.random() < .5 else "laplace")
        X = [X[:k], X[k:]]
        hid = rng.random() < (.2 if fam.endswith("RCD") else .5)
        P = rng.permutation(n + 1)[:n]
        if fam in ("ICALiNGAM", "DirectLiNGAM", "BottomUpParceLiNGAM", "MultiGroupDirectLiNGAM"):
            X = [x * units(rng, n + 1) for x in X] if not fam.startswith("Multi") else (lambda u: [x * u for x in X])(units(rng, n + 1))
        X = [x[:, P] if hid else x[:, :n] for x in X]
        mk = {"ICALiNGAM": lambda: lingam.ICALiNGAM(random_state=1), "DirectLiNGAM": lambda: lingam.DirectLiNGAM(),
              "HighDimDirectLiNGAM": lambda: lingam.HighDimDirectLiNGAM(J=3), "BottomUpParceLiNGAM": lambda: lingam.BottomUpParceLiNGAM(alpha=float(rng.choice([.01, .3, .6, .9]))),
              "RCD": lambda: lingam.RCD(shapiro_alpha=1.0, cor_alpha=float(rng.choice([1e-5, .01, .3])), ind_alpha=float(rng.choice([.05, .3, .6]))),
              "MultiGroupDirectLiNGAM": lambda: lingam.MultiGroupDirectLiNGAM(), "MultiGroupRCD": lambda: lingam.MultiGroupRCD(shapiro_alpha=1.0, cor_alpha=float(rng.choice([1e-5, .01, .3])), ind_alpha=float(rng.choice([.05, .3, .6]))),
              "RESIT": None}[fam]
        multi = fam.startswith("Multi")
        M = mk().fit(X if multi else X[0])
        mats = [np.asarray(b, float) for b in (M.adjacency_matrices_ if multi else [M.adjacency_matrix_])]
        rcd = fam.endswith("RCD")
        cols = [(v, 0) for v in range(n)]
        for f, t in qs:
            rows = [pat(B[f]) for B in mats]
            dag_ok = not any(cyclic(B) for B in mats)
            mk_t = lambda kind: dict(base(kind, fam, seed), v1=f + 1, v2=t + 1,
                                     anc=[int(t in M.ancestors_list_[f])] if rcd else [], level=[1] * n if rcd else levels(M.causal_order_, n))
            if not multi:
                x = te(mk_t("te"), rng, np.zeros((n, m2), int), lambda D: M.estimate_total_effect(D.T if rng.random() < .5 else D.T.astype(float), f, t), t, f, 0, rows[0], cols)
                out.append(x)
                if hasattr(M, "estimate_total_effect2") and dag_ok:
                    out.append(te2(mk_t("te2"), lambda: M.estimate_total_effect2(f, t), mats[0], f, t, rows[0]))
            else:
                comp = [compose(rng, np.zeros((n, m2 + d), int), t, f, 0, rows[d], cols) if NAN not in rows[d] else (rng.integers(-9, 10, (n, m2 + d)), [], 0) for d in range(2)]
                if any(c is None for c in comp):
                    continue
                r, w = asked(lambda: M.estimate_total_effect([c[0].T.astype(float) for c in comp], f, t))
                r2, w2 = asked(lambda: M.estimate_total_effect2(f, t))
                for d in range(2):
                    x = mk_t("te")
                    x.update(src=f + 1, dst=t + 1, am=rows[d], cols=[[v + 1, 0] for v in range(n)], c=[[a + 1, b, k] for a, b, k in comp[d][1]], c0=comp[d][2], D=comp[d][0].tolist(), warned=w)
                    take(x, r, d)
                    out.append(x)
                    if dag_ok:
                        def again(d=d):
                            if w2:
                                warnings.warn("may be incorrect")
                            if r2[0] != "ok":
                                raise RuntimeError(r2[1] + r2[2])
                            return np.nan if len(r2[1]) == 0 else r2[1][d]
                        out.append(te2(mk_t("te2"), again, mats[d], f, t, rows[d]))
        if multi:
            for d in range(2):
                E = X[d] - X[d] @ np.nan_to_num(mats[d]).T
                out.append(pv(base("pv", fam, seed), lambda: M.get_error_independence_p_values(X), E, np.isnan(mats[d]), d))
        else:
            Y = lin(rng, 33, n)
            out.append(pv(base("pv", fam, seed), lambda: M.get_error_independence_p_values(Y), Y - Y @ np.nan_to_num(mats[0]).T, np.isnan(mats[0])))
    elif fam in ("VARLiNGAM", "VARMALiNGAM"):
        n = min(n, 4)
        L, q = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        exact = rng.random() < .6
        m2 = 4 * n * (L + q + 2) + 10
        B0, order = dag(rng, n)
        X = series(rng, 60, n) * units(rng, n)
        st = stub(B0, order)
        if fam == "VARLiNGAM":
            kw = dict(ar_coefs=rng.choice([-1, 0, 0, 0, 2], (L, n, n)), lingam_model=st, prune=False) if exact else dict(prune=rng.random() < .7, criterion=None)
            M = lingam.VARLiNGAM(lags=L, **kw).fit(X)
            B = np.asarray(M.adjacency_matrices_)
            Om, q = np.zeros((0, n, n)), 0
        else:
            exact = True
            M = lingam.VARMALiNGAM(order=(L, q), ar_coefs=rng.choice([-1, 0, 0, 0, 2], (L, n, n)), ma_coefs=rng.choice([0, 0, 0, .5], (q, n, n)), lingam_model=st, prune=bool(rng.random() < .4)).fit(X)
            B, Om = (np.asarray(v) for v in M.adjacency_matrices_)
            exact = imat(B.reshape(-1, n)) is not None
        am = np.concatenate([*B, *Om], axis=1)
        big = np.pad(np.concatenate([*B], axis=1), [(0, n * L), (0, 0)])
        exact = exact and imat(big) is not None
        lv = levels(M.causal_order_, n)
        cols = [(v, l) for l in range(L + 1) for v in range(n)] + [(n + v, l) for l in range(1, q + 1) for v in range(n)]
        for _ in range(8):
            f, t = (int(x) for x in rng.integers(0, n, 2))
            fl = int(rng.integers(0, L + 1))
            if f == t and fl == 0:
                continue
            mk_t = lambda kind: dict(base(kind, fam, seed), v1=f + 1, v2=t + 1, level=lv)
            if f != t:
                if fam == "VARLiNGAM":
                    call = lambda D: M.estimate_total_effect(D.T.astype(float), f, t, from_lag=fl)
                else:
                    call = lambda D: M.estimate_total_effect(D[:n].T.astype(float), D[n:].T.astype(float), f, t, from_lag=fl)
                out.append(te(mk_t("te"), rng, np.zeros((n if fam == "VARLiNGAM" else 2 * n, m2), int), call, t, f, fl, pat(am[f]), cols))
            x = te2(mk_t("te2"), lambda: M.estimate_total_effect2(n, f, t, from_lag=fl), big, f + n * fl, t, pat(am[f]), exact)
            x["fl"] = fl
            out.append(x)
        out.append(pv(base("pv", fam, seed), lambda: M.get_error_independence_p_values(), M.residuals_ @ (np.eye(n) - B[0]).T, np.zeros((n, n))))
    else:      # LongitudinalLiNGAM
        n = min(n, 3)
        T = int(rng.integers(2, 6))
        L = int(rng.integers(1, min(T, 4)))
        u = units(rng, n)
        X = [lin(rng, 50, n) for _ in range(T)]
        for k in range(1, T):
            X[k] = X[k] + X[k - 1] @ rng.uniform(-.6, .6, (n, n))
        M = lingam.LongitudinalLiNGAM(n_lags=L).fit([x * u for x in X])
        B = np.asarray(M.adjacency_matrices_)
        m2 = 50      # the number of samples of the fit
        for _ in range(8):
            ft, tt = int(rng.integers(L, T)), int(rng.integers(L, T))
            f, t = (int(x) for x in rng.integers(0, n, 2))
            if (f, ft) == (t, tt):
                continue
            lv = [k * n + v for k in range(T) for v in (levels(M.causal_orders_[k], n) if k >= L else range(1, n + 1))]
            mk_t = lambda kind: dict(base(kind, fam, seed), v1=ft * n + f + 1, v2=tt * n + t + 1, level=lv)
            row = pat(np.concatenate([*B[ft]], axis=1)[f])
            cols = [((ft - l) * n + v, 0) for l in range(L + 1) for v in range(n)]
            out.append(te(mk_t("te"), rng, np.zeros((n * T, m2), int), lambda D: M.estimate_total_effect([D[k * n:(k + 1) * n].T.astype(float) for k in range(T)], ft, f, tt, t),
                          tt * n + t, ft * n + f, 0, row, cols))
            big = np.zeros((n * T, n * T))          # no path leads back in time
            for k in range(ft, T):
                for l in range(L + 1):
                    if k - l >= ft:
                        big[k * n:(k + 1) * n, (k - l) * n:(k - l + 1) * n] = B[k, l]
            out.append(te2(mk_t("te2"), lambda: M.estimate_total_effect2(ft, f, tt, t), big, ft * n + f, tt * n + t, row))
        for k in range(T):
            E = np.asarray(M.residuals_[k]) @ (np.eye(n) - B[k, 0]).T if k >= L else np.full((50, n), np.nan)
            out.append(pv(base("pv", fam, seed), lambda: M.get_error_independence_p_values(), E, np.zeros((n, n)), k))
    return [x for x in out if x is not None]


def take(x, r, d):
    if r[0] != "ok":
        x["out"], x["msg"] = r[1], r[2]
    else:
        try:
            x["ans"] = NAN if len(r[1]) == 0 else ans(r[1][d])
            assert len(r[1]) in (0, 2)
        except Exception:
            x["out"], x["msg"] = "answer-malformed", str(r[1])


FAMS = ["ICALiNGAM", "DirectLiNGAM", "HighDimDirectLiNGAM", "BottomUpParceLiNGAM", "RCD", "MultiGroupDirectLiNGAM", "MultiGroupRCD", "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM"]


def safe(a):
    o = observe(one, a)
    return o[1] if o[0] == "ok" else [dict(base("te", a[1], a[0]), out="fit-failed", msg=str(o))]


def check(ctx):
    ctx.design("MCEffects", "CONSTANTS K = %d\nSPECIFICATION Spec\nINVARIANTS Adjusted PathsAgree NoneBackwards\n" % ctx.n(3, 4))
    jobs = [((ctx.seed, 25, k, i), f) for k, f in enumerate(FAMS) for i in range(ctx.n(50, 200))]
    traces = [t for r in pmap(safe, jobs, chunk=2) for t in r]
    ctx.judge("EffectsTrace", "SPECIFICATION Spec\n", traces, "effects")
    for f in FAMS:
        ctx.cover[f] = {k: sum(t["fam"] == f and t["kind"] == k for t in traces) for k in ("te", "te2", "pv")}
        ctx.cover[f]["confounded"] = sum(t["fam"] == f and NAN in t["am"] for t in traces)
        ctx.cover[f]["warned"] = sum(t["fam"] == f and t["warned"] for t in traces)
    ctx.cover["rule"] = "fits of generated data; effects asked on new integer data composed from the source and its direct causes"
    ctx.sample(next(t for t in traces if t["kind"] == "te"))
    ctx.sample(next(t for t in traces if t["kind"] == "te2"))
