import numpy as np, polars as pl


def design(rng, n, k, kind="normal"):
    if kind == "scaled":
        X = rng.normal(size=(n, k)) * (10.0 ** rng.integers(-2, 3, k))
    elif kind == "offset":
        X = rng.normal(size=(n, k)) + rng.integers(-5, 6, k)
    elif kind == "int":
        X = rng.integers(-6, 7, (n, k)).astype(float) + np.eye(n, k) * 9
    else:
        X = rng.normal(size=(n, k))
    return X


def target(rng, X, noise=.3):
    b = rng.normal(size=X.shape[1]) * 2
    return X @ b + rng.normal() + rng.normal(size=len(X)) * noise


def ridge(X, y, lam=0.0, bias=False, w=None):
    """solution of (X'WX + lam*I')b = X'Wy, the intercept (last) unpenalised"""
    A = np.column_stack([X, np.ones(len(X))]) if bias else np.asarray(X, float)
    W = np.ones(len(A)) if w is None else np.asarray(w, float)
    P = np.eye(A.shape[1]) * lam
    if bias:
        P[-1, -1] = 0
    return np.linalg.solve((A * W[:, None]).T @ A + P, (A * W[:, None]).T @ y)


def cond(X, bias=False):
    A = np.column_stack([X, np.ones(len(X))]) if bias else X
    if len(A) < A.shape[1]:
        return np.inf
    s = np.linalg.svd(A, compute_uv=False)
    return s[0] / s[-1] if s[-1] > 1e-12 * s[0] else np.inf


def frame(X, y, extra=None):
    d = {f"x{j}": X[:, j] for j in range(X.shape[1])}
    d["y"] = y
    if extra:
        d.update(extra)
    return pl.DataFrame(d)


def xs(k):
    return [f"x{j}" for j in range(k)]


def apred(X, b, bias):
    return X @ b[:X.shape[1]] + (b[-1] if bias else 0.0)
