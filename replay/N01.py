import warnings
import numpy as np, polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree
from nnlib import *
RULE = "random/lattice/duplicate/clustered/collinear point sets (n<=400, d<=18), every metric, k beyond n, bounds placed exactly on occurring distances; non-trivial when at least 2 points; distinct by (clause, input)"


def expect(drow, k, bound):
    """the k smallest distances not above bound"""
    return [x for x in np.sort(drow)[:k] if x <= bound]


def verify(C, key, dists, idx, drow, k, bound, slack=0.0):
    exp = [x for x in np.sort(drow)[:k]]
    lo = [x for x in exp if x <= bound]
    okd = len(dists) == len(lo) and all(abs(a - b) <= slack + TOL * (1 + abs(b)) for a, b in zip(dists, lo))
    C.ok(okd, key + ":distances", dists, lo, "must be the k smallest distances within the bound, ascending")
    if idx is not None:
        good = len(set(idx)) == len(idx) and all(0 <= i < len(drow) and abs(drow[i] - d) <= TOL * (1 + abs(d)) for i, d in zip(idx, dists))
        C.ok(good, key + ":identity", list(zip(idx, dists)), None, "each returned point must be distinct and at the returned distance")


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 6000):
        it += 1
        n = int(rng.choice([1, 2, 3, 7, 20, 33, 60, 130, 400]))
        d = int(rng.choice([1, 2, 3, 4, 5, 9, 16, 18]))
        kind = KINDS[int(rng.integers(len(KINDS)))]
        dist = DISTS[int(rng.integers(4))]
        X = points(rng, n, d, kind)
        q = points(rng, int(rng.choice([1, 3, 16, 40])), d, kind)
        k = int(rng.choice([1, 2, 3, 5, 10, n, n + 3]))
        D = dmat(q, X, dist)
        bound = 9999.0 if rng.random() < .5 else float(rng.choice(D.ravel()))
        if kind != "lattice":  # exact ties with the bound are only meaningful where the arithmetic is exact
            bound *= 1 + 1e-6
        if bound <= 1e-6:
            bound = 1.0
        par = bool(rng.random() < .3)
        C.begin("KDTree.knn", X=X, q=q, k=k, dist=dist, bound=bound, parallel=par)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")  # a matrix in column order is copied with a warning
            tr = C.call("KDTree.knn:call", KDTree, X if it % 6 else np.asfortranarray(X), dist)
        if tr is None:
            continue
        C.ok(len(tr) == n, "KDTree:count", len(tr), n)
        r = C.call("KDTree.knn:call", tr.knn, q, k, max_dist_bound=bound, parallel=par)
        if r is not None:
            dd, ii = r
            C.ok(dd.shape == (len(q), k) and ii.shape == (len(q), k), "KDTree.knn:shape", [dd.shape, ii.shape], [len(q), k])
            for j in range(len(q)):
                m = int(np.isfinite(dd[j]).sum())
                pad = np.all(np.isinf(dd[j][m:])) and np.all(ii[j][m:] == 2**32 - 1)
                C.ok(pad, "KDTree.knn:padding", [dd[j], ii[j]], None, "missing neighbours are padded with inf / u32::MAX at the end")
                verify(C, f"KDTree.knn:{dist}", dd[j][:m].tolist(), ii[j][:m].tolist(), D[j], k, bound)
        if it % 4 == 0:
            eps = float(np.median(D)) * 0.3
            C.begin("KDTree.knn epsilon", X=X, q=q, k=k, dist=dist, eps=eps)
            r = C.call("KDTree.knn:eps", tr.knn, q, k, epsilon=eps, max_dist_bound=1e9)
            if r is not None:
                for j in range(len(q)):
                    m = int(np.isfinite(r[0][j]).sum())
                    want = np.sort(D[j])[:k]
                    # distances never smaller than exact and off by at most epsilon
                    g = r[0][j][:m]
                    C.ok(m <= len(want) and np.all(g[:m] >= want[:m] - 1e-9 * (1 + want[:m])) and np.all(np.diff(g) >= -1e-12), "KDTree.knn:eps-lower", g, want)
                    C.ok(m == len(want) and np.all(g <= want + eps + 1e-9 * (1 + want)), "KDTree.knn:eps-upper", g, want, "a neighbour may be missed only within epsilon")
        # expressions
        n2 = min(n, 130)
        X2 = X[:n2]
        D2 = dmat(X2, X2, dist)
        idv = rng.permutation(n2).astype(np.uint32) + int(rng.choice([0, 100]))
        pos = {int(v): i for i, v in enumerate(idv)}
        df = pl.DataFrame({f"f{j}": X2[:, j] for j in range(d)}).with_columns(pl.Series("id", idv))
        feats = [f"f{j}" for j in range(d)]
        kk = int(rng.choice([1, 2, 4, n2 + 1]))
        b2 = 99999.0 if rng.random() < .5 else float(rng.choice(D2.ravel()))
        if kind != "lattice":
            b2 *= 1 + 1e-6
        if b2 <= 1e-6:
            b2 = 2.0
        par = bool(rng.random() < .4)
        C.begin("knn expressions", df=df, k=kk, dist=dist, bound=b2, parallel=par)
        r = C.call("query_knn_ptwise:call", lambda: df.select(
            pds.query_knn_ptwise(*feats, index="id", k=kk, dist=dist, parallel=par, return_dist=True, max_bound=b2).alias("w"),
            pds.query_knn_ptwise(*feats, index="id", k=kk, dist=dist, parallel=par, max_bound=b2).alias("i"),
            pds.query_dist_from_kth_nb(*feats, k=kk, dist=dist, parallel=par, max_bound=b2).alias("kth")))
        if r is not None:
            W = r["w"].struct.unnest()
            for j in range(n2):
                dd, ii, i2 = W["dist"][j].to_list(), W["idx"][j].to_list(), r["i"][j].to_list()
                verify(C, f"query_knn_ptwise:{dist}", dd, [pos.get(x, -1) for x in ii], D2[j], kk + 1, b2)
                C.ok(ii == i2, "query_knn_ptwise:idx-agrees", i2, ii, "with and without distances must agree")
                C.ok(dd and abs(r["kth"][j] - dd[-1]) <= 1e-9 * (1 + abs(dd[-1])), "query_dist_from_kth_nb", r["kth"][j], dd[-1:] )
        # expressions over a single reference point
        pt = X2[int(rng.integers(n2))] + rng.choice([0.0, 0.5])
        dp = dmat(pt[None, :], X2, dist)[0] if dist != "l2" else None
        if dp is not None:
            rr = float(rng.choice(dp)) * (1 if kind == "lattice" else 1 + 1e-6)
            C.begin("single point expressions", df=df, pt=pt, dist=dist, r=rr, k=kk)
            r = C.call("within_dist_from:call", lambda: df.select(pds.within_dist_from(*feats, pt=list(pt), r=rr, dist=dist).alias("a"),
                                                                 pds.is_knn_from(*feats, pt=list(pt), k=kk, dist=dist).alias("b")))
            if r is not None:
                C.ok(r["a"].to_list() == (dp <= rr).tolist(), "within_dist_from", r["a"], (dp <= rr).tolist())
                kth = np.sort(dp)[min(kk, n2) - 1]
                C.ok(all(x == bool(y) or abs(v - kth) < 1e-9 * (1 + kth) for x, y, v in zip(r["b"], dp <= kth, dp)), "is_knn_from", r["b"], (dp <= kth).tolist())
                C.ok(sum(r["b"]) >= min(kk, n2), "is_knn_from:count", r["b"], min(kk, n2), "the k-th nearest point is itself one of the k nearest")
