import numpy as np, polars as pl
import polars_ds as pds
from nnlib import *
RULE = "frames with null features, data/evaluation masks, shuffled non-contiguous indices, chunked columns and k-nearest averages; distinct by (clause, input)"


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 5000):
        it += 1
        n = int(rng.choice([2, 4, 9, 25, 60, 140]))
        d = int(rng.choice([1, 2, 3, 5, 16]))
        kind = KINDS[int(rng.integers(len(KINDS)))]
        dist = DISTS[int(rng.integers(4))]
        X = points(rng, n, d, kind)
        D = dmat(X, X, dist)
        idv = (rng.permutation(n) * 3 + 5)
        pos = {int(v): i for i, v in enumerate(idv)}
        nul = rng.random(n) < rng.choice([0.0, .25])
        keep = rng.random(n) < rng.choice([.5, .9])
        ev = rng.random(n) < .5
        col = int(rng.integers(d))
        mnull = rng.random() < .5
        df = pl.DataFrame({f"f{j}": X[:, j] for j in range(d)}).with_columns(
            pl.Series("id", idv),
            pl.Series("keep", [None if not b and mnull and rng.random() < .5 else bool(b) for b in keep], dtype=pl.Boolean),
            pl.Series("ev", [None if not b and mnull and rng.random() < .5 else bool(b) for b in ev], dtype=pl.Boolean),
            pl.when(pl.Series(nul)).then(None).otherwise(pl.col(f"f{col}")).alias(f"f{col}"))
        y = np.round(rng.normal(size=n), 3)
        df = df.with_columns(pl.Series("y", y))
        if rng.random() < .3 and n > 4:
            df = pl.concat([df[: n // 3], df[n // 3:]], rechunk=False)
        feats = [f"f{j}" for j in range(d)]
        k = int(rng.choice([1, 2, 3, 6]))
        par = bool(rng.random() < .3)
        C.begin("masks and nulls", df=df, k=k, dist=dist, parallel=par)
        for use_keep, use_ev in ((False, False), (True, False), (False, True), (True, True)):
            kw = {}
            if use_keep:
                kw["data_mask"] = "keep" if rng.random() < .5 else pl.col("keep")
            if use_ev:
                kw["eval_mask"] = "ev"
            o = C.call("query_knn_ptwise[masks]:call", lambda: df.select(
                pds.query_knn_ptwise(*feats, index="id", k=k, dist=dist, parallel=par, max_bound=1e12, **kw).alias("i"),
                pds.query_knn_ptwise(*feats, index="id", k=k, dist=dist, parallel=par, max_bound=1e12, return_dist=True, **kw).alias("w")))
            if o is None:
                continue
            pool = ~nul & (keep if use_keep else True)
            W = o["w"].struct.unnest()
            for j in range(n):
                got = o["i"][j]
                if nul[j] or (use_ev and not ev[j]):
                    C.ok(got is None and W["idx"][j] is None and W["dist"][j] is None, "knn[masks]:null", [got, W["idx"][j]], None, "rows not evaluated, or with nulls, give null")
                    continue
                want = np.sort(D[j][pool])[:k + 1]
                ids = got.to_list() if got is not None else None
                ok = ids is not None and len(set(ids)) == len(ids) and all(i in pos and pool[pos[i]] for i in ids)
                C.ok(ok, "knn[masks]:pool", ids, None, "neighbours come from the allowed rows only, each once")
                if ok:
                    C.ok(same([D[j][pos[i]] for i in ids], want.tolist()), "knn[masks]:nearest", [D[j][pos[i]] for i in ids], want)
                    C.ok(same(W["dist"][j].to_list(), want.tolist()) and W["idx"][j].to_list() == ids, "knn[masks]:dist", W["dist"][j], want)
        # frequency counts
        if it % 3 == 0:
            f = C.call("query_knn_freq_cnt", lambda: df.select(pds.query_knn_freq_cnt(*feats, index="id", k=k, dist=dist, parallel=par, max_bound=1e12, data_mask="keep").alias("x")).unnest("x"))
            base = df.select(pds.query_knn_ptwise(*feats, index="id", k=k, dist=dist, max_bound=1e12, data_mask="keep").alias("i"))["i"]
            want = {}
            for l in base:
                for i in (l if l is not None else []):
                    want[int(i)] = want.get(int(i), 0) + 1
            C.ok(f is not None and {int(a): int(b) for a, b in f.iter_rows()} == want, "query_knn_freq_cnt", f, want)
        # averages: use data without distance ties at the k-th place
        gaps_ok = True
        Dp = D.copy()
        Dp[:, nul] = np.inf
        for weighted in (False, True):
            mb = float(rng.choice([1e-9, 0.0, 0.3]))
            Mx = 99999.0 if rng.random() < .6 else float(np.median(D)) * 1.0001 + 1e-3
            C.begin("query_knn_avg", df=df, k=k, dist=dist, weighted=weighted, min_bound=mb, max_bound=Mx, parallel=par)
            o = C.call("query_knn_avg:call", lambda: df.select(pds.query_knn_avg(*feats, target="y", k=k, dist=dist, weighted=weighted, parallel=par, min_bound=mb, max_bound=Mx).alias("a"))["a"])
            if o is None:
                continue
            for j in range(n):
                if nul[j]:
                    C.ok(o[j] is None, "query_knn_avg:null", o[j], None)
                    continue
                order = np.argsort(Dp[j], kind="stable")[:k + 2]
                ds = Dp[j][order]
                if len(ds) > k + 1 and abs(ds[k] - ds[k + 1]) <= 1e-9 * (1 + ds[k]):
                    continue  # a tie at the last place: the choice is free
                sel = [i for i in order[:k + 1] if np.isfinite(Dp[j][i]) and Dp[j][i] <= Mx and Dp[j][i] >= mb]
                edge = [i for i in order[:k + 1] if abs(Dp[j][i] - mb) < 1e-12 and Dp[j][i] != mb or abs(Dp[j][i] - Mx) < 1e-9]
                if edge:
                    continue
                if not sel:
                    C.ok(o[j] is None, "query_knn_avg:empty", o[j], None)
                    continue
                dd, yy = Dp[j][sel], y[sel]
                if weighted:
                    w = 1 / (1 + dd) if mb <= np.finfo(float).eps else 1 / dd
                else:
                    w = np.ones(len(sel))
                want = float((w * yy).sum() / w.sum())
                C.ok(o[j] is not None and abs(o[j] - want) <= 1e-8 * (1 + abs(want)), f"query_knn_avg:{'w' if weighted else 'u'}", o[j], want)
