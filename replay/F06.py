import numpy as np, polars as pl, math
import scipy.special as sp
import polars_ds as pds
from polars_ds.exprs import ts_features as T
RULE = "series of 4..120 values (continuous, integer, heavily tied, constant runs), templates, lags, radii, thresholds, both parallel settings, f64 and integer columns, group_by; oracle: direct enumeration of templates, windows, neighbours and phrases; distinct by (clause, input)"


def emb(x, m):
    return np.array([x[i:i + m] for i in range(len(x) - m + 1)])


def cheb(A):
    return np.abs(A[:, None, :] - A[None, :, :]).max(2)


def lz(b):
    seen, i, k = set(), 0, 1
    while i + k <= len(b):
        s = tuple(b[i:i + k])
        if s in seen:
            k += 1
        else:
            seen.add(s)
            i += k
            k = 1
    return len(seen)


def knn_ent(X, k, dist):
    n, d = X.shape
    D = X[:, None, :] - X[None, :, :]
    D = np.sqrt((D ** 2).sum(2)) if dist == "l2" else np.abs(D).max(2)
    rho = np.sort(D, 1)[:, k]
    cd = math.pi ** (d / 2) / 2 ** d / math.gamma(1 + d / 2) if dist == "l2" else 1.
    with np.errstate(divide="ignore"):
        return sp.digamma(n) - sp.digamma(k) + math.log(cd) + d / n * np.log(2 * rho).sum()


def near(D, r):
    return (np.abs(D - r) < 1e-9 * max(1, abs(r))).any()


def run(C):
    rng = C.rng
    it = 0
    one = lambda df, e: df.select(e.alias("o"))["o"][0]
    while C.time_ok() and it < (3000 if not C.thorough else 60000):
        it += 1
        n = int(rng.choice([4, 5, 8, 13, 30, 64, 120]))
        kind = it % 4
        x = rng.normal(0, 2, n)
        if kind == 1:
            x = rng.integers(0, 5, n).astype(float)
        elif kind == 2:
            x = np.cumsum(rng.normal(0, 1, n))
        elif kind == 3:
            x = np.repeat(rng.integers(-3, 4, n), rng.integers(1, 4, n))[:n].astype(float)
        s = pl.Series("x", x)
        if kind in (1, 3) and it % 8 > 3:
            s = s.cast(pl.Int64)
        df = pl.DataFrame({"x": s})
        par = bool(it % 2)
        inp = dict(x=x, dtype=str(s.dtype), parallel=par)
        m = int(rng.integers(2, 4))
        C.begin("approximate entropy compares the template match frequencies of length m and m + 1", **inp)
        scale = bool(it % 3)
        f = float(rng.choice([.2, .35, .5]))
        r = f * (x.std(ddof=1) if scale else 1.)
        C.case_input.update(m=m, filtering_level=f, scale_by_std=scale)
        A, B = cheb(emb(x, m)), cheb(emb(x, m + 1)) if n > m else None
        if n >= 2 * m and r > 1e-6 and not near(A, r) and not near(B, r):
            g = C.call("apen:call", one, df, T.query_approx_entropy("x", m=m, filtering_level=f, scale_by_std=scale, parallel=par))
            if g is not None:
                pm, p1 = np.log((A <= r).mean(1)).mean(), np.log((B <= r).mean(1)).mean()
                C.close(g, abs(pm - p1), "apen", 1e-8, 1e-10)
        C.begin("sample entropy is the log ratio of template matches, self matches excluded", **inp)
        r = f * x.std(ddof=0)
        C.case_input.update(m=m, ratio=f)
        if n >= 2 * m and r > 1e-6 and not near(A, r) and not near(B, r):
            g = C.call("sampen:call", one, df, T.query_sample_entropy("x", ratio=f, m=m, parallel=par))
            b, a = (A <= r).sum() - len(A), (B <= r).sum() - len(B)
            if g is not None:
                w = math.nan if a == 0 and b == 0 else math.inf if a == 0 else math.log(b / a)
                C.close(g, w, "sampen", 1e-9, 1e-12)
        C.begin("k-nearest-neighbour, copula and transfer entropies", **inp)
        d = int(rng.integers(1, 4))
        k = int(rng.integers(1, 4))
        X = rng.normal(0, 1, (n, d))
        dist = ["l2", "inf"][it % 2]
        dx = pl.DataFrame({f"c{i}": X[:, i] for i in range(d)})
        C.case_input = dict(X=X, k=k, dist=dist, parallel=par)
        g = C.call("knnent:call", one, dx, T.query_knn_entropy(*dx.columns, k=k, dist=dist, parallel=par))
        if g is not None:
            C.close(g, math.nan if n <= k else knn_ent(X, k, dist), "knnent", 1e-7, 1e-8)
        rk = lambda v: (np.argsort(np.argsort(v)) + 1) / len(v)
        if d >= 2 and n > k:
            g = C.call("copent:call", one, dx, T.query_copula_entropy(*dx.columns, k=k, parallel=par))
            if g is not None:
                C.close(g, -knn_ent(np.column_stack([rk(X[:, i]) for i in range(d)]), k, "l2"), "copent", 1e-7, 1e-8)
        if d == 3 and n > k + 2:
            ce = lambda *v: -knn_ent(np.column_stack([rk(q) for q in v]), k, "l2")
            x0, y0, z0 = X.T
            g = C.call("ci:call", one, dx, T.query_cond_indep("c0", "c1", "c2", k=k, parallel=par))
            if g is not None:
                C.close(g, ce(x0, y0, z0) - ce(y0, z0) - ce(x0, z0), "cond_indep", 1e-7, 1e-8)
            lag = int(rng.integers(1, 3))
            if n - lag > k:
                g = C.call("te:call", one, dx, T.query_transfer_entropy("c0", "c1", lag=lag, k=k, parallel=par))
                if g is not None:
                    a_, b_, c_ = x0[lag:], y0[:-lag], x0[:-lag]
                    C.close(g, ce(a_, b_, c_) - ce(b_, c_) - ce(a_, c_), "transfer", 1e-7, 1e-8)
        C.begin("permutation entropy counts the ordinal patterns of all delayed windows", **inp)
        tau, nd = int(rng.integers(1, 4)), int(rng.integers(2, 5))
        if (nd - 1) * tau < n and len(np.unique(x)) == n:
            C.case_input = dict(x=x, tau=tau, n_dims=nd)
            pats = [tuple(np.argsort(x[i:i + (nd - 1) * tau + 1:tau])) for i in range(n - (nd - 1) * tau)]
            _, c = np.unique(pats, axis=0, return_counts=True)
            p = c / c.sum()
            base = float(rng.choice([2., math.e]))
            g = C.call("perm:call", one, df, T.query_permute_entropy("x", tau=tau, n_dims=nd, base=base))
            if g is not None:
                C.close(g, -(p * np.log(p)).sum() / math.log(base), "perm", 1e-8, 1e-9)
        C.begin("entropy and conditional entropy of discrete columns", **inp)
        u, v = rng.integers(0, 4, n), rng.integers(0, 3, n)
        dd = pl.DataFrame({"u": u, "v": [f"k{i}" for i in v]})
        C.case_input = dict(u=u, v=v)
        H = lambda *z: -sum(p * math.log(p) for p in np.unique(np.column_stack(z), axis=0, return_counts=True)[1] / n)
        C.close(one(dd, T.query_entropy("u")), H(u), "entropy", 1e-9, 1e-10)
        C.close(one(dd, T.query_cond_entropy("u", "v")), H(u, v) - H(v), "cond_entropy", 1e-8, 1e-9)
        C.begin("Lempel-Ziv complexity counts the distinct phrases of the parse", **inp)
        b = rng.random(n) < rng.choice([.1, .5, .9])
        bl = b.tolist()
        if it % 5 == 0:
            bl[int(rng.integers(n))] = None
        C.case_input = dict(b=bl)
        db = pl.DataFrame({"b": bl}, schema={"b": pl.Boolean})
        want = lz([bool(q) for q in bl])
        g = C.call("lz:call", one, db, T.query_lempel_ziv("b", as_ratio=False))
        C.close(g, want, "lz")
        C.close(one(db, T.query_lempel_ziv("b")), want / n, "lz:ratio")
        C.begin("similar-subsequence counts", **inp)
        w = int(rng.choice([2, 3, 5, 15, 16, 17, 20]))
        if w <= n:
            st0 = int(rng.integers(0, n - w + 1))
            q = x[st0:st0 + w] + rng.normal(0, .3, w)
            E = emb(x, w)
            D = ((E - q) ** 2).sum(1)
            th = float(np.median(D) * 1.0001 + 1e-3)
            C.case_input = dict(x=x, query=q, threshold=th, parallel=par)
            if not near(D, th):
                g = C.call("sql2:call", one, df, T.query_similar_count(q.tolist(), "x", th, metric="sql2", parallel=par))
                C.close(g, (D < th).sum(), "sql2")
                C.close(one(df, T.query_similar_count(q.tolist(), "x", th, metric="sql2", parallel=par, return_ratio=True)), (D < th).mean(), "sql2:ratio")
            sd = E.std(1, ddof=1)
            if q.std() > 1e-3 and (sd > 1e-3).all():
                Z = (E - E.mean(1, keepdims=True)) / sd[:, None]
                D = ((Z - (q - q.mean()) / q.std(ddof=1)) ** 2).sum(1)
                th = float(np.quantile(D, .4) * 1.001 + 1e-3)
                C.case_input["threshold"] = th
                if (np.abs(D - th) > 1e-6).all():
                    g = C.call("sqzl2:call", one, df, T.query_similar_count(q.tolist(), "x", th, metric="sqzl2", parallel=par))
                    C.close(g, (D < th).sum(), "sqzl2")
        else:
            C.case_input = dict(x=x, query_len=w, parallel=par)
            for me in ("sql2", "sqzl2"):
                C.raises("long:" + me, one, df, T.query_similar_count(list(range(w)), "x", 1., metric=me, parallel=par))
        C.begin("time-series statistics equal their formulas", **inp)
        lag = int(rng.integers(1, 3))
        C.case_input["lag"] = lag
        C.close(one(df, T.query_abs_energy("x")), (x ** 2).sum(), "energy", 1e-8, 1e-9)
        C.close(one(df, T.query_mean_abs_change("x")), np.abs(np.diff(x)).mean(), "mac", 1e-9, 1e-10)
        C.close(one(df, T.query_mean_n_abs_max("x", 3)), np.sort(np.abs(x))[-3:].mean(), "nabsmax", 1e-9, 1e-10)
        lo, hi = np.sort(rng.choice(x, 2))
        C.close(one(df, T.query_range_count("x", float(lo), float(hi))), ((x >= lo) & (x <= hi)).sum(), "range_count")
        if x.max() > x.min():
            C.close(one(df, T.query_symm_ratio("x")), abs(x.mean() - np.median(x)) / (x.max() - x.min()), "symm", 1e-8, 1e-9)
        if abs(x.mean()) > 1e-2:
            C.close(one(df, T.query_cv("x")), x.std(ddof=1) / x.mean(), "cv", 1e-8, 1e-9)
        if n > 2 * lag:
            C.close(one(df, T.query_c3_stats("x", lag)), (x[2 * lag:] * x[lag:-lag] * x[:-2 * lag]).mean(), "c3", 1e-8, 1e-8)
            a_, b_, c_ = x[:-2 * lag], x[lag:-lag], x[2 * lag:]
            C.close(one(df, T.query_time_reversal_asymmetry_stats("x", lag)), (c_ ** 2 * b_ - b_ * a_ ** 2).mean(), "tras", 1e-7, 1e-7)
        C.close(one(df, T.query_cid_ce("x")), math.sqrt((np.diff(x) ** 2).sum()), "cid", 1e-8, 1e-9)
        if x.var() > 1e-6:
            C.close(one(df, T.query_cid_ce("x", normalize=True)), math.sqrt((np.diff(x) ** 2).sum()) / x.std(ddof=1), "cid:norm", 1e-7, 1e-8)
            xm = x - x.mean()
            C.close(one(df, T.query_auto_corr("x", lag)), (xm[lag:] * xm[:-lag]).sum() / ((n - lag) * x.var()), "acf", 1e-7, 1e-8)
        C.close(one(df, T.query_auto_corr("x", lag, normalize=False)), (x[lag:] * x[:-lag]).mean(), "acf:raw", 1e-8, 1e-9)
        if n > 2 * lag + 4 and kind != 3:
            M = np.column_stack([x[lag - i:n - i] for i in range(1, lag + 1)] + [np.ones(n - lag)])
            if np.linalg.cond(M) < 1e4:
                co = np.linalg.lstsq(M, x[lag:], rcond=None)[0]
                g = C.call("ar:call", lambda: df.with_columns(pl.col("x").cast(pl.Float64)).select(T.query_ar_coeffs("x", lag).alias("o"))["o"][0])
                if g is not None:
                    C.close(np.ravel(g.to_list()), co, "ar", 1e-5, 1e-6)
                    g = df.with_columns(pl.col("x").cast(pl.Float64)).select(T.query_ar_coeffs("x", lag, null_policy="0.5", add_bias=False).alias("o"))["o"][0]
                    if np.linalg.cond(M[:, :-1]) < 1e4:
                        C.close(np.ravel(g.to_list()), np.linalg.lstsq(M[:, :-1], x[lag:], rcond=None)[0], "ar:nobias", 1e-5, 1e-6)
