import numpy as np
from polars_ds.spatial import KDTree
from nnlib import *
RULE = "histories of bulk construction and insertions (batches of 1..200, many duplicates, sorted and periodic data) followed by queries, against brute force over all inserted points; distinct by history"


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 60000):
        it += 1
        d = int(rng.choice([1, 2, 3, 5, 8, 16]))
        kind = KINDS[int(rng.integers(len(KINDS)))]
        dist = DISTS[int(rng.integers(4))]
        same_pts = it % 7 == 3
        batches = [points(rng, int(rng.choice([1, 3, 20, 90])), d, kind)]
        for _ in range(int(rng.integers(1, 6))):
            k2 = kind if rng.random() < .6 else KINDS[int(rng.integers(len(KINDS)))]
            b = points(rng, int(rng.choice([1, 2, 17, 60, 200])), d, k2)
            if rng.random() < .3:
                b = b * 10 + 5  # outside the bounding box so far
            if same_pts:  # one coordinate, or all of them, identical in every point of the history
                b = b.copy()
                b[:, :1 if it % 2 else d] = 1.5
            batches.append(b)
        if same_pts:
            batches[0] = batches[0].copy()
            batches[0][:, :1 if it % 2 else d] = 1.5
        C.begin("insertions", batches=[b.tolist() for b in batches], dist=dist)
        tr = C.call("KDTree", KDTree, batches[0], dist)
        if tr is None:
            continue
        bad = False
        n = len(batches[0])
        for b in batches[1:]:
            r = C.call("KDTree.add", tr.add, b)
            n += len(b)
            bad |= r is None
            C.ok(len(tr) == n and tr.count() == n, "KDTree.add:count", len(tr), n, "the tree holds every point inserted")
        if bad:
            continue
        X = np.concatenate(batches)
        q = np.concatenate([points(rng, 6, d, kind), X[rng.integers(0, n, 6)], points(rng, 3, d, "normal") * 20])
        D = dmat(q, X, dist)
        k = int(rng.choice([1, 4, 11, n + 2]))
        dd, ii = tr.knn(q, k, max_dist_bound=1e300)
        rr = float(np.quantile(D, rng.choice([.05, .3]))) * (1 if kind == "lattice" else 1 + 1e-6) + 1e-3
        w = tr.within(q, rr, False, False)
        cnt = tr.within_count(q, rr)
        edge = np.abs(D - rr) < 1e-9 * (1 + rr)
        for j in range(len(q)):
            m = int(np.isfinite(dd[j]).sum())
            want = np.sort(D[j])[:k]
            idx = ii[j][:m].astype(int)
            C.ok(same(dd[j][:m].tolist(), want.tolist()), "add:knn", dd[j][:m], want, "after insertions the tree answers as one built from all points")
            C.ok(len(set(idx)) == m and all(i < n and abs(D[j][i] - x) <= TOL * (1 + x) for i, x in zip(idx, dd[j][:m])), "add:ids", idx, None, "inserted points are numbered in insertion order")
            if not edge[j].any():
                exp = np.nonzero(D[j] <= rr)[0].tolist()
                C.ok(sorted(w[j]) == exp and int(cnt[j]) == len(exp), "add:within", w[j], exp)
        if it % 10 == 0:
            C.begin("dimension mismatch", d=d)
            C.raises("add:dim", tr.add, np.zeros((2, d + 1)))
            C.raises("add:dim-less", tr.add, np.zeros((2, d - 1))) if d > 1 else None
            C.raises("add:vector", tr.add, np.zeros(d))
            C.raises("add:empty", tr.add, np.zeros((0, d)))
            C.raises("knn:dim", tr.knn, np.zeros((2, d + 1)), 1)
            C.raises("knn:k0", tr.knn, np.zeros((2, d)), 0)
            C.raises("within:radii", tr.within, np.zeros((2, d)), np.ones(3))
            C.ok(len(tr) == n and tr.count() == n, "add:dim-unchanged", len(tr), n)
            a2, i2 = tr.knn(q, k, max_dist_bound=1e300)
            C.ok(np.array_equal(a2, dd) and np.array_equal(i2, ii), "add:refused-changes-nothing", a2, dd)
