"""Oracle tables for the top-down order search."""
import numpy as np
from .common import *
from . import oracles as O


def masks(n):
    return range(1 << n)


def residualised(X, S):
    """X after removing the effect of the variables in S, one after the other (ascending)"""
    Y = np.array(X, float)
    for m in S:
        for i in range(Y.shape[1]):
            if i != m and i not in S[:S.index(m)]:
                Y[:, i] = O.resid(Y[:, i], Y[:, m])
    return Y


def pw_table(X):
    n = X.shape[1]
    C = np.zeros((1 << n, n, n, 2))
    for k in masks(n):
        S = [v for v in range(n) if k >> v & 1]
        rest = [v for v in range(n) if v not in S]
        if len(rest) < 2:
            continue
        Y = residualised(X, S)
        for i in rest:
            for j in rest:
                if i != j:
                    C[k, i, j] = O.pw_terms(Y, i, j)
    return C


def kernel_table(X):
    from sklearn.preprocessing import scale
    n = X.shape[1]
    X = (X - X.mean(0)) / X.std(0)
    kappa, sigma = (2e-3, .5) if len(X) > 1000 else (2e-2, 1.0)
    C = np.zeros((1 << n, n, n, 2))
    for k in masks(n):
        S = [v for v in range(n) if k >> v & 1]
        rest = [v for v in range(n) if v not in S]
        if len(rest) < 2:
            continue
        Y = residualised(X, S)
        for i in rest:
            for j in rest:
                if i != j:
                    C[k, i, j] = O.kernel_mi(Y[:, i], O.resid(Y[:, j], Y[:, i]), kappa, sigma)
    return C


def path_table(X, order):
    """costs at every step of the given order"""
    n = X.shape[1]
    C = np.zeros((n, n, n, 2))
    for k in range(n - 1):
        rest = [v for v in range(n) if v not in order[:k]]
        Y = X if k == 0 else np.array(X, float)
        if k:
            # effect of all placed variables at once
            Y[:, rest] = np.stack([ols_resid(X[:, v], X[:, order[:k]]) for v in rest], 1)
        for i in rest:
            for j in rest:
                if i != j:
                    C[k, i, j] = O.pw_terms(Y, i, j)
    return C


def ols_resid(y, Z):
    Z = np.column_stack([np.ones(len(y)), Z])
    return y - Z @ np.linalg.lstsq(Z, y, rcond=None)[0]


def int_tables(Cs, sizes):
    """integer cost tables and the tolerance that covers rounding"""
    n = Cs[0].shape[1]
    top = max(1e-300, max(float(np.abs(C).max()) for C in Cs))
    sc = 8e8 / (top * n * sum(sizes))
    tabs = [np.rint(C * sc).astype(int).tolist() for C in Cs]
    return tabs, int(n * sum(sizes) + 4)


def row_table(X, B, psets=None):
    """rowok[t][P]: the row of t is the adaptive-lasso regression on the predictor set P"""
    n = X.shape[1]
    B = np.asarray(B, float)
    res = []
    for t in range(n):
        row = []
        for P in [[v for v in range(n) if k >> v & 1] for k in masks(n)] if psets is None else [psets[t]]:
            if t in P:
                row.append(0)
                continue
            ref = np.zeros(n)
            if P:
                ref[P] = O.adaptive_lasso(X, P, t)
            sc = np.std(X[:, t]) / np.std(X, axis=0)
            ok = np.all(np.abs(B[t] - ref) <= 1e-6 * np.abs(ref) + 1e-9 * sc) and \
                np.array_equal(B[t] != 0, ref != 0)
            row.append(int(ok))
        res.append(row)
    return res


def rand_pk(rng, n, dens=.4, p1=.5, consistent=False):
    pk = np.full((n, n), -1)
    if consistent:
        o = rng.permutation(n)
    for a in range(n):
        for b in range(n):
            if a != b and rng.random() < dens:
                v = int(rng.random() < p1)
                if consistent:
                    if v == 1 and list(o).index(b) > list(o).index(a):
                        continue
                    if v == 0 and list(o).index(b) < list(o).index(a) and rng.random() < .7:
                        continue
                pk[a, b] = v
    return pk


def satisfiable(pk):
    """is there an order that meets every hard requirement?"""
    n = len(pk)
    before = {(b, a) for a in range(n) for b in range(n) if a != b and pk[a, b] == 1}
    before |= {(a, b) for a in range(n) for b in range(n) if a != b and pk[a, b] == 0 and pk[b, a] != 0}
    left = set(range(n))
    while left:
        free = {v for v in left if not any((u, v) in before for u in left)}
        if not free:
            return False
        left -= free
    return True
