import numpy as np, polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree
from nnlib import *
RULE = "point sets as for nearest neighbours; radii placed exactly on occurring distances of lattice data, scalar, per-row and null radii; distinct by (clause, input)"


def rad(rng, D, kind):
    r = float(rng.choice(D.ravel()))
    if kind != "lattice":
        r *= 1 + 1e-6
    return r if r > 1e-6 else 1.0


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 4000):
        it += 1
        n = int(rng.choice([1, 2, 5, 18, 40, 120, 300]))
        d = int(rng.choice([1, 2, 3, 5, 9, 16, 17]))
        kind = KINDS[int(rng.integers(len(KINDS)))]
        dist = DISTS[int(rng.integers(4))]
        X = points(rng, n, d, kind)
        q = points(rng, int(rng.choice([2, 3, 17, 40])), d, kind)
        D = dmat(q, X, dist)
        r = rad(rng, D, kind)
        rv = np.array([rad(rng, D[j:j + 1], kind) for j in range(len(q))])
        par = bool(rng.random() < .4)
        srt = bool(rng.random() < .6)
        C.begin("KDTree.within", X=X, q=q, r=r, r_vec=rv, dist=dist, sort=srt, parallel=par)
        tr = C.call("KDTree:call", KDTree, X, dist)
        if tr is None:
            continue
        for nm, rr in (("scalar", r), ("vec", rv)):
            R = np.broadcast_to(rr, len(q))
            a = C.call(f"within[{nm}]", tr.within, q, rr, srt, False, par)
            b = C.call(f"within+dist[{nm}]", tr.within, q, rr, srt, True, par)
            c = C.call(f"within_count[{nm}]", tr.within_count, q, rr, par)
            if a is None or b is None or c is None:
                C.ok(False, f"within[{nm}]:none", [a, b, c], "lists")
                continue
            C.ok(len(a) == len(b) == len(c) == len(q), f"within[{nm}]:len", [len(a), len(b), len(c)], len(q))
            for j in range(len(q)):
                want = set(np.nonzero(D[j] <= R[j])[0].tolist())
                C.ok(set(a[j]) == want and len(a[j]) == len(want), f"within[{nm}]:{dist}:set", a[j], sorted(want), "exactly the points within the radius")
                C.ok(sorted(i for i, _ in b[j]) == sorted(want) and all(abs(D[j][i] - x) <= TOL * (1 + x) for i, x in b[j]), f"within+dist[{nm}]:{dist}", b[j], sorted(want))
                C.ok(int(c[j]) == len(want), f"within_count[{nm}]:{dist}", c[j], len(want))
                if srt:
                    C.ok(all(x[1] <= y[1] for x, y in zip(b[j], b[j][1:])) and np.all(np.diff(D[j][a[j]]) >= -1e-9 * (1 + R[j])), f"within[{nm}]:sorted", b[j])
        if it % 5 == 0:
            C.begin("KDTree.within length-1 radius", X=X, q=q[:1], r=r, dist=dist)
            a = tr.within(q[:1], np.array([r]), True, True)
            C.ok(a == tr.within(q[:1], r, True, True), "within:len1-array", a, tr.within(q[:1], r, True, True), "a length-1 radius array acts as that radius")
            c = tr.within_count(q[:1], np.array([r]))
            C.ok(c is not None and list(c) == list(tr.within_count(q[:1], r)), "within_count:len1-array", c, tr.within_count(q[:1], r))
        if it % 7 == 0:
            fs = [f"f{j}" for j in range(d)]
            e0 = pl.DataFrame({"id": [], **{f: [] for f in fs}}, schema={"id": pl.UInt32, **{f: pl.Float64 for f in fs}})
            C.begin("radius expressions of an empty frame", d=d, dist=dist, parallel=par)
            o = C.call("empty frame:call", lambda: e0.select(pds.query_radius_ptwise(*fs, index="id", r=r, dist=dist, sort=srt, parallel=par).alias("a"), pds.query_nb_cnt(*fs, r=pl.col("f0"), dist=dist, parallel=par).alias("c")))
            C.ok(o is not None and o.height == 0, "empty frame", o, "an empty answer")
        # expressions, some rows with nulls
        n2 = min(n, 120)
        X2 = X[:n2].copy()
        D2 = dmat(X2, X2, dist)
        r2 = rad(rng, D2, kind)
        rv2 = np.array([rad(rng, D2[j:j + 1], kind) for j in range(n2)])
        idv = rng.permutation(n2) + int(rng.choice([0, 7]))
        df = pl.DataFrame({f"f{j}": X2[:, j] for j in range(d)}).with_columns(pl.Series("id", idv), pl.Series("r", rv2))
        feats = [f"f{j}" for j in range(d)]
        nullrow = np.zeros(n2, bool)
        if rng.random() < .4 and n2 > 2:
            nullrow = rng.random(n2) < .2
            df = df.with_columns(pl.when(pl.Series(nullrow)).then(None).otherwise(pl.col("f0")).alias("f0"))
        nullrad = np.zeros(n2, bool)
        if rng.random() < .4:
            nullrad = rng.random(n2) < (.3 if n2 > 1 else .7)
            df = df.with_columns(pl.when(pl.Series(nullrad)).then(None).otherwise(pl.col("r")).alias("r"))
        D3 = D2.copy()
        D3[:, nullrow] = np.inf
        C.begin("radius expressions", df=df, r=r2, dist=dist, parallel=par, sort=srt)
        o = C.call("radius expressions:call", lambda: df.select(
            pds.query_radius_ptwise(*feats, index="id", r=r2, dist=dist, sort=srt, parallel=par).alias("a"),
            pds.query_nb_cnt(*feats, r=r2, dist=dist, parallel=par).alias("c"),
            pds.query_nb_cnt(*feats, r="r", dist=dist, parallel=par).alias("cv"),
            pds.query_nb_cnt(*feats, r=list(rv2), dist=dist, parallel=par).alias("cl")))
        if o is not None:
            for j in range(n2):
                got = o["a"][j]
                if nullrow[j]:
                    C.ok(got is None and o["c"][j] is None and o["cv"][j] is None, "radius:null-row", [got, o["c"][j], o["cv"][j]], None, "a row with a null has a null answer")
                    continue
                want = set(idv[D3[j] <= r2].tolist())
                C.ok(got is not None and set(got) == want and len(got) == len(want), f"query_radius_ptwise:{dist}", got, sorted(want))
                if srt and got is not None and n2 > 1 and rng.random() < .2:
                    pos = {int(v): i for i, v in enumerate(idv)}
                    C.ok(np.all(np.diff([D2[j][pos[i]] for i in got.to_list()]) >= -1e-9 * (1 + r2)), "query_radius_ptwise:sorted", got)
                C.ok(o["c"][j] == len(want), f"query_nb_cnt:{dist}", o["c"][j], len(want))
                wv = int((D3[j] <= rv2[j]).sum())
                C.ok((o["cv"][j] is None if nullrad[j] else o["cv"][j] == wv) and o["cl"][j] == wv, f"query_nb_cnt[rowwise]:{dist}", [o["cv"][j], o["cl"][j]], wv)
            if it % 3 == 0:
                f = C.call("query_radius_freq_cnt", lambda: df.select(pds.query_radius_freq_cnt(*feats, index="id", r=r2, dist=dist, parallel=par).alias("x")).unnest("x"))
                if f is not None:
                    cnt = {int(a): int(b) for a, b in f.iter_rows()}
                    want = {}
                    for j in range(n2):
                        if not nullrow[j]:
                            for i in idv[D3[j] <= r2]:
                                want[int(i)] = want.get(int(i), 0) + 1
                    C.ok(cnt == want, "query_radius_freq_cnt", cnt, want)
