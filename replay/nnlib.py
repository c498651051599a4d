import numpy as np


def dmat(A, B, dist):
    A, B = np.asarray(A, float), np.asarray(B, float)
    D = A[:, None, :] - B[None, :, :]
    if dist == "l1":
        return np.abs(D).sum(-1)
    if dist == "l2":
        return np.sqrt((D * D).sum(-1))
    if dist == "sql2":
        return (D * D).sum(-1)
    return np.abs(D).max(-1)


def points(rng, n, d, kind):
    if kind == "lattice":
        return rng.integers(-3, 4, (n, d)).astype(float)
    if kind == "dup":
        base = rng.normal(size=(max(1, n // 6), d))
        return base[rng.integers(0, len(base), n)]
    if kind == "cluster":
        c = rng.normal(size=(4, d)) * 30
        return c[rng.integers(0, 4, n)] + rng.normal(size=(n, d))
    if kind == "line":  # all but one coordinate constant
        X = np.ones((n, d)) * rng.integers(-2, 3)
        X[:, rng.integers(0, d)] = rng.permutation(n)
        return X
    if kind == "skew":
        return np.exp(rng.normal(size=(n, d)) * 2) * rng.choice([-1, 1], (n, d))
    if kind == "sorted":
        return np.sort(rng.normal(size=(n, d)), axis=0)
    return rng.normal(size=(n, d))


KINDS = ["lattice", "normal", "dup", "cluster", "line", "skew", "sorted"]
DISTS = ["l1", "l2", "sql2", "inf"]
TOL = 1e-9


def same(a, b, tol=TOL):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))
