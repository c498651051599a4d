import numpy as np, polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree
from polars_ds.exprs import string as ST, ts_features as T
from common import allclose
from nnlib import *
import random, string
RULE = "every operation with a parallel switch, on 1..300 rows (fewer, equal, more than worker threads, non-multiples), run with the switch on and off; non-trivial when more than one row; distinct by (clause, input)"
WORDS = ["kitten", "sitting", "", "a", "ab", "ba", "abc", "hello world", "héllo", "日本語", "saturday", "sunday", "aaaa", "aaab"]


def eqs(a, b):
    if a.dtype != b.dtype or len(a) != len(b):
        return False
    return a.equals(b, null_equal=True) or str(a.to_list()) == str(b.to_list())


def exprs(pds, k, dist, d, r):
    f = [f"f{j}" for j in range(d)]
    E = {}
    for nm, fn in {
        "query_knn_ptwise": lambda p: pds.query_knn_ptwise(*f, index="id", k=k, dist=dist, parallel=p),
        "query_knn_ptwise_dist": lambda p: pds.query_knn_ptwise(*f, index="id", k=k, dist=dist, parallel=p, return_dist=True),
        "query_knn_ptwise_eval": lambda p: pds.query_knn_ptwise(*f, index="id", k=k, dist=dist, parallel=p, eval_mask="m"),
        "query_knn_ptwise_eval_dist": lambda p: pds.query_knn_ptwise(*f, index="id", k=k, dist=dist, parallel=p, eval_mask="m", return_dist=True),
        "query_knn_avg": lambda p: pds.query_knn_avg(*f, target="y", k=k, dist=dist, parallel=p),
        "query_knn_avg_w": lambda p: pds.query_knn_avg(*f, target="y", k=k, dist=dist, weighted=True, parallel=p),
        "query_radius_ptwise": lambda p: pds.query_radius_ptwise(*f, index="id", r=r, dist=dist, parallel=p, sort=False),
        "query_nb_cnt": lambda p: pds.query_nb_cnt(*f, r=r, dist=dist, parallel=p),
        "query_nb_cnt_row": lambda p: pds.query_nb_cnt(*f, r="rv", dist=dist, parallel=p),
        "query_dist_from_kth_nb": lambda p: pds.query_dist_from_kth_nb(*f, k=k, dist=dist, parallel=p),
    }.items():
        E[nm] = fn
    for nm, kw in {"str_leven": {}, "str_d_leven": {}, "str_osa": {}, "str_jaccard": {}, "str_sorensen_dice": {}, "str_overlap_coeff": {}, "str_fuzz": {},
                   "str_jw": {}, "str_jaro": {}, "str_hamming": {}, "str_tversky_sim": {"alpha": .3, "beta": .7}, "str_lcs_seq": {}, "str_lcs_seq_sim": {"return_sim": True}}.items():
        fn = getattr(ST, nm.removesuffix("_sim") if "lcs" in nm else nm, None)
        if fn is not None:
            E[nm + "_2col"] = lambda p, fn=fn, kw=kw: fn("s1", "s2", parallel=p, **kw)
            E[nm + "_lit"] = lambda p, fn=fn, kw=kw: fn("s1", pl.lit("kitten"), parallel=p, **kw)
    for nm in ("str_leven", "str_d_leven", "str_osa", "str_fuzz"):
        fn = getattr(pds, nm)
        if nm != "str_fuzz":
            E[nm + "_sim"] = lambda p, fn=fn: fn("s1", "s2", parallel=p, return_sim=True)
    E["filter_by_levenshtein"] = lambda p: pds.filter_by_levenshtein("s1", "s2", 3, parallel=p)
    E["filter_by_hamming"] = lambda p: pds.filter_by_hamming("s1", "s2", 3, parallel=p)
    return E


def scalars(k, dist):
    """expressions whose result is not row by row"""
    f = lambda p: p
    E = {}
    for mode in ("full", "same", "left", "right", "valid"):
        for meth in ("direct", "fft"):
            E[f"convolve_{mode}_{meth}"] = lambda p, mode=mode, meth=meth: pds.convolve("y", [1., -2., .5], mode=mode, method=meth, parallel=p)
    for m in ("sql2", "sqzl2"):
        E["query_similar_count_" + m] = lambda p, m=m: T.query_similar_count([.1, .3, -.2, .4], "y", metric=m, threshold=2., parallel=p)
    E["query_sample_entropy"] = lambda p: T.query_sample_entropy("y", .3, parallel=p)
    E["query_approx_entropy"] = lambda p: T.query_approx_entropy("y", 2, .4, parallel=p)
    E["query_knn_entropy"] = lambda p: T.query_knn_entropy("f0", "y", k=k, parallel=p)
    E["query_copula_entropy"] = lambda p: T.query_copula_entropy("f0", "y", k=k, parallel=p)
    E["query_cond_indep"] = lambda p: T.query_cond_indep("f0", "y", "rv", k=k, parallel=p)
    E["query_transfer_entropy"] = lambda p: T.query_transfer_entropy("y", "rv", k=k, parallel=p)
    E["query_knn_freq_cnt"] = lambda p: pds.query_knn_freq_cnt("f0", "y", index="id", k=k, parallel=p)
    E["query_radius_freq_cnt"] = lambda p: pds.query_radius_freq_cnt("f0", "y", index="id", r=1., parallel=p)
    return E


def run(C):
    rng = C.rng
    it = 0
    skip = set()
    while C.time_ok() and it < (60 if not C.thorough else 800):
        it += 1
        n = int([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 257][it % 14])
        d = int(rng.choice([1, 2, 3, 16]))
        kind = ["normal", "lattice", "cluster", "sorted"][int(rng.integers(4))]
        X = points(rng, n, d, kind)
        dist = DISTS[int(rng.integers(4))]
        sv = [WORDS[i] for i in rng.integers(0, len(WORDS), n)]
        tv = [WORDS[i] for i in rng.integers(0, len(WORDS), n)]
        s1 = [None if rng.random() < .1 else s for s in sv]
        df = pl.DataFrame({f"f{j}": X[:, j] for j in range(d)}).with_columns(
            pl.Series("id", np.arange(n)), pl.Series("y", rng.normal(size=n)), pl.Series("m", rng.random(n) < .6),
            pl.Series("rv", np.abs(rng.normal(size=n)) + .5), pl.Series("s1", s1, dtype=pl.String), pl.Series("s2", tv, dtype=pl.String),
            pl.Series("l1", [[1, 2]] * n), pl.Series("l2", [[2, 3]] * n))
        E = exprs(pds, int(rng.choice([1, 3, 5])), dist, d, 1.5)
        for nm, fn in E.items():
            if nm in skip:
                continue
            C.begin("parallel == serial: " + nm, df=df, dist=dist)
            a, b = C.outcome(lambda: df.select(fn(False).alias("o"))["o"]), C.outcome(lambda: df.select(fn(True).alias("o"))["o"])
            if a[0] == "err" and b[0] == "err":
                continue
            C.ok(a[0] == b[0] and eqs(a[1], b[1]), "parallel:" + nm, b[1], a[1], "the parallel switch must not change any value, order or null")
            if a[0] == "ok":
                C.ok(len(a[1]) == n, "length:" + nm, len(a[1]), n)
        for nm, fn in scalars(int(rng.choice([1, 3])), dist).items():
            if n < 8:
                continue
            C.begin("parallel == serial: " + nm, df=df)
            a, b = C.outcome(lambda: df.select(fn(False).alias("o"))["o"]), C.outcome(lambda: df.select(fn(True).alias("o"))["o"])
            if a[0] == "err" and b[0] == "err":
                continue
            if a[0] == b[0] == "ok" and nm.endswith("freq_cnt"):
                a, b = ((k_, v.value_counts().sort(v.name) if v.dtype != pl.Struct else pl.Series(sorted(map(str, v.to_list())))) for k_, v in (a, b))
                C.ok(str(a[1]) == str(b[1]), "parallel:" + nm, b[1], a[1], "the parallel switch must not change any value")
                continue
            C.ok(a[0] == b[0] and a[1].dtype == b[1].dtype and allclose(a[1], b[1], 1e-9, 1e-10), "parallel:" + nm, b[1], a[1], "the parallel switch must not change any value")
        q = points(rng, int(rng.choice([1, 15, 16, 17, 33, 40, 100])), d, kind)
        tr = KDTree(X, dist)
        rv = np.abs(rng.normal(size=len(q))) + .3
        C.begin("parallel == serial: KDTree", X=X, q=q, dist=dist)
        a, b = tr.knn(q, 3, parallel=False), tr.knn(q, 3, parallel=True)
        C.ok(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "parallel:KDTree.knn", b[0], a[0])
        for rr in (1.5, rv):
            if len(q) == 1 and not isinstance(rr, float):
                continue
            for rd in (False, True):
                C.ok(tr.within(q, rr, True, rd, False) == tr.within(q, rr, True, rd, True), "parallel:KDTree.within", None)
            C.ok(np.array_equal(tr.within_count(q, rr, False), tr.within_count(q, rr, True)), "parallel:KDTree.within_count", None)
