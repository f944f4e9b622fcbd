"""Reference numerics: the statistical primitives the specifications treat as oracles.

Written independently of /repo (nothing is imported from lingam), from the published
definitions and pinned to the numeric conventions of the pinned commit.
"""
import numpy as np
from scipy import stats
from scipy.linalg import eigh


# ---- least squares ---------------------------------------------------------
def ols(X, y):
    """coefficients (without intercept) and residual of y on the columns of X, with intercept."""
    X = np.asarray(X, float).reshape(len(y), -1)
    y = np.asarray(y, float)
    if X.shape[1] == 0:
        return np.zeros(0), y - y.mean(), y.mean()
    Xc, yc = X - X.mean(0), y - y.mean()
    c = np.linalg.lstsq(Xc, yc, rcond=None)[0]
    return c, yc - Xc @ c, y.mean() - X.mean(0) @ c


def ols_nc(X, y):
    """least squares without intercept"""
    return np.linalg.lstsq(X, y, rcond=None)[0]


def adaptive_lasso(X, predictors, target, gamma=1.0):
    """adaptive lasso support (BIC) and OLS refit of the target on that support."""
    from sklearn.linear_model import LassoLarsIC
    X = np.asarray(X, float)
    Z = (X - X.mean(0)) / X.std(0)
    w = np.abs(ols(Z[:, predictors], Z[:, target])[0]) ** gamma
    reg = LassoLarsIC(criterion="bic").fit(Z[:, predictors] * w, Z[:, target])
    sup = np.abs(reg.coef_ * w) > 0
    coef = np.zeros(len(predictors))
    if sup.any():
        coef[sup] = ols(X[:, np.array(predictors)[sup]], X[:, target])[0]
    return coef


# ---- pairwise measures -----------------------------------------------------
def resid(a, b):
    """residual of a on b (no intercept: covariance over variance)."""
    return a - (np.mean((a - a.mean()) * (b - b.mean())) / np.var(b)) * b


def entropy(u):
    return (1 + np.log(2 * np.pi)) / 2 - 79.047 * (np.mean(np.log(np.cosh(u))) - 0.37457) ** 2 \
        - 7.4129 * (np.mean(u * np.exp(-u ** 2 / 2))) ** 2


def diff_mi(xi, xj, ri_j, rj_i):
    return (entropy(xj) + entropy(ri_j / np.std(ri_j))) - (entropy(xi) + entropy(rj_i / np.std(rj_i)))


def pw_terms(X, i, j):
    """(plain term, term when j is known not to be caused by the candidates)"""
    z = lambda a: (a - a.mean()) / a.std()
    xi, xj = z(X[:, i]), z(X[:, j])
    a = min(0.0, diff_mi(xi, xj, resid(xi, xj), resid(xj, xi))) ** 2
    b = min(0.0, diff_mi(xi, xj, resid(xi, xj), xj)) ** 2
    return a, b


def kernel_mi(x1, x2, kappa, sigma):
    n = len(x1)
    k = lambda x: np.exp(-(x[:, None] - x[None, :]) ** 2 / (2 * sigma ** 2))
    K1, K2 = k(x1), k(x2)
    t1, t2 = K1 + n * kappa / 2 * np.eye(n), K2 + n * kappa / 2 * np.eye(n)
    big = np.block([[t1 @ t1, K1 @ K2], [K2 @ K1, t2 @ t2]])
    ls = lambda M: np.sum(np.log(np.linalg.svd(M, compute_uv=False)))
    return -0.5 * (ls(big) - ls(t1 @ t1) - ls(t2 @ t2))


# ---- HSIC ------------------------------------------------------------------
def _width(X):
    X = X[:100]
    D = np.sum((X[:, None, :] - X[None, :, :]) ** 2, -1)
    d = D[np.triu_indices(len(X), 1)]
    return np.sqrt(0.5 * np.median(d[d > 0]))


def _bw(x, c):
    x = np.asarray(x).ravel()
    iqr = (stats.scoreatpercentile(x, 75) - stats.scoreatpercentile(x, 25)) / 1.349
    s = np.std(x, ddof=1)
    A = min(s, iqr) if iqr > 0 else s
    return c * A * len(x) ** -0.2


def hsic(X, Y, bw="mdbs"):
    """(statistic, p value) of the gamma-approximated HSIC test"""
    X = np.asarray(X, float).reshape(len(X), -1)
    Y = np.asarray(Y, float).reshape(len(Y), -1)
    n = len(X)

    def gram(Z):
        w = _width(Z) if bw == "mdbs" else (_bw(Z, 1.059) if bw == "scott" else _bw(Z, .9))
        G = np.sum(Z * Z, 1)
        K = np.exp(-(G[:, None] + G[None, :] - 2 * Z @ Z.T) / (2 * w ** 2))
        Kc = K - K.mean(0)[None, :] - K.mean(1)[:, None] + K.mean()
        return K, Kc
    K, Kc = gram(X)
    L, Lc = gram(Y)
    stat = np.sum(Kc * Lc) / n
    V = (Kc * Lc / 6) ** 2
    var = (V.sum() - np.trace(V)) / n / (n - 1)
    var = 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3) * var
    mx = (K.sum() - np.trace(K)) / n / (n - 1)
    my = (L.sum() - np.trace(L)) / n / (n - 1)
    mean = (1 + mx * my - mx - my) / n
    return stat, stats.gamma.sf(stat, mean ** 2 / var, scale=var * n / mean)


def f_corr(x, y):
    """F-correlation (Bach and Jordan) with incomplete Cholesky factors"""
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    n = len(x)
    kappa, sigma = (2e-3, .5) if n > 1000 else (2e-2, 1.0)

    def factor(v):
        v = (v - v.mean()) / v.std()
        tol = n * kappa * 1e-2
        P = np.arange(n)
        G = np.zeros((n, 0))
        d = np.ones(n)
        i = 0
        while d[i:].sum() > tol:
            G = np.c_[G, np.zeros(n)]
            if i > 0:
                k = i + int(np.argmax(d[i:]))
                P[[i, k]] = P[[k, i]]
                G[[i, k], :i] = G[[k, i], :i]
                top = d[k]
            else:
                top = d[0]
            G[i, i] = np.sqrt(top)
            col = np.exp(-.5 / sigma ** 2 * (v[P[i + 1:]] - v[P[i]]) ** 2)
            G[i + 1:, i] = (col - G[i + 1:, :i] @ G[i, :i]) / G[i, i]
            d[i + 1:] = 1 - np.sum(G[i + 1:, :i + 1] ** 2, axis=1)
            i += 1
        G = G[np.argsort(P)]
        G = G - G.mean(0)
        D, A = eigh(G.T @ G)
        keep = np.where(D >= n * kappa * 1e-2)[0][::-1]
        D = D[keep]
        U = G @ (A[:, keep] / np.sqrt(D))
        return D / (n * kappa / 2 + D), U
    R1, U1 = factor(x)
    R2, U2 = factor(y)
    C = (R2[:, None] * (U2.T @ U1)) * R1[None, :]
    M = np.block([[np.eye(len(R1)), C.T], [C, np.eye(len(R2))]])
    return 1 - eigh(M, eigvals_only=True)[0]


def fisher(ps):
    ps = np.asarray(ps, float)
    if (ps == 0).any():
        return np.inf, 0.0
    s = -2 * np.log(ps).sum()
    return s, stats.chi2.sf(s, 2 * len(ps))


# ---- data ------------------------------------------------------------------
def sem(rng, n, m, dens=.6, noise=None, scale=None, cyc=False, latent=0):
    """non-Gaussian linear SEM: returns (X, B)"""
    p = rng.permutation(n)
    B = np.tril((rng.uniform(.5, 1.6, (n, n)) * rng.choice([-1, 1], (n, n))) * (rng.random((n, n)) < dens), -1)
    B = B[np.ix_(p, p)]
    kinds = noise or ["unif", "exp", "lap", "cub"]
    E = np.zeros((m, n))
    for i in range(n):
        k = kinds[int(rng.integers(len(kinds)))]
        E[:, i] = {"unif": lambda: rng.uniform(-1, 1, m), "exp": lambda: rng.exponential(1, m),
                   "lap": lambda: rng.laplace(0, 1, m), "cub": lambda: np.sign(rng.standard_normal(m)) * np.abs(rng.standard_normal(m)) ** 1.7,
                   "gauss": lambda: rng.standard_normal(m)}[k]()
    for _ in range(latent):
        i, j = rng.choice(n, 2, replace=False)
        L = rng.exponential(1, m)
        E[:, i] += 1.5 * L
        E[:, j] += 1.2 * L
    X = np.linalg.solve(np.eye(n) - B, E.T).T
    if scale:
        X = X * rng.uniform(.2, 5, n) + rng.uniform(-4, 4, n)
    return X, B
