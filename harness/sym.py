"""Pairs of fits of the same data presented differently (C26, C27)."""
import numpy as np
from .common import *
from .c16 import lin, series, quiet
from .direct_or import rand_pk


def blocks(o):
    return [[int(x) + 1 for x in v] if hasattr(v, "__iter__") else [int(v) + 1] for v in o]


def answer(M):
    """(orders, matrices) of a fitted model, in one shape for all estimators"""
    g = lambda k: getattr(M, k) if hasattr(type(M), k) else None
    o = g("causal_orders_")
    if o is not None:
        orders = [[] if all(isinstance(v, float) and np.isnan(v) for v in x) else blocks(x) for x in o]
        orders = [x for x in orders if x]
    elif g("ancestors_list_") is not None:
        orders = [[sorted(int(v) + 1 for v in s)] for s in M.ancestors_list_]
    elif g("causal_order_") is not None:
        orders = [blocks(M.causal_order_)]
    else:
        orders = []
    B = g("adjacency_matrices_") if g("adjacency_matrices_") is not None else [M.adjacency_matrix_]
    out = []

    def flat(x):
        if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim > 2):
            for y in x:
                flat(y)
        else:
            out.append(np.asarray(x, float))
    flat(B)
    return orders, out


def fx(B, sc=10000):
    return [[NAN if np.isnan(v) else (0 if v == 0 else (int(np.sign(v)) if abs(v * sc) < 1 else int(np.rint(v * sc)))) for v in r] for r in B]
