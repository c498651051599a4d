import numpy as np, polars as pl, math
import polars_ds as pds
from common import hide
RULE = "matrices of 1..25 rows and 1..6 columns (fewer rows than columns too), integers, nearly collinear columns, missing rows, centred or not; oracle: numpy SVD and the defining identities; distinct by (clause, input)"


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 60000):
        it += 1
        n, d = int(rng.choice([1, 2, 3, 5, 9, 25])), int(rng.integers(1, 6))
        X = rng.normal(size=(n, d)) * 10.0 ** rng.integers(-1, 2, d) if it % 3 else rng.integers(-4, 5, (n, d)).astype(float)
        cen = bool(rng.random() < .6)
        F = [f"f{j}" for j in range(d)]
        nulls = it % 4 == 0 and n > 3
        rows = [None] * d
        cols = {f: list(X[:, j]) for j, f in enumerate(F)}
        keep = np.ones(n, bool)
        if nulls:
            for i in rng.choice(n, max(1, n // 4), replace=False):
                cols[F[int(rng.integers(d))]][i] = None
                keep[i] = False
        df = pl.DataFrame({f: pl.Series(v, dtype=pl.Float64) for f, v in cols.items()})
        if nulls:
            df = hide(df)
        if it % 5 == 0 and n > 2:
            df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
        M = np.array([[np.nan if v is None else v for v in cols[f]] for f in F]).T
        Z = M - np.nanmean(M, 0) if cen else M
        Z = Z[keep]
        if len(Z) == 0:
            continue
        s = np.linalg.svd(Z, compute_uv=False)
        sc = max(1., s[0])
        C.begin("singular values", X=cols, center=cen)
        r = C.call("sv:call", lambda: df.select(pds.singular_values(*F, center=cen).alias("o"))["o"].to_list())
        if r is not None:
            C.close(r, [s], "sv", 1e-8, 1e-8 * sc)
        if len(Z) > 1:
            C.begin("explained variance", X=cols, center=cen)
            r = C.call("ev:call", lambda: df.select(pds.singular_values(*F, center=cen, as_explained_var=True).alias("o"))["o"].to_list())
            if r is not None:
                C.close(r, [s ** 2 / (len(Z) - 1)], "ev", 1e-7, 1e-8 * sc * sc)
            if s[0] > 1e-6:
                r = C.call("evr:call", lambda: df.select(pds.singular_values(*F, center=cen, as_explained_var=True, as_ratio=True).alias("o"))["o"].to_list())
                if r is not None:
                    C.close(r, [s ** 2 / (s ** 2).sum()], "evr", 1e-7, 1e-8)
                r = C.call("svr:call", lambda: df.select(pds.singular_values(*F, center=cen, as_ratio=True).alias("o"))["o"].to_list())
                if r is not None:
                    C.close(r, [s / s.sum()], "svr", 1e-7, 1e-8)
        C.begin("principal vectors" + (" (fewer rows than columns)" if len(Z) < d else ""), X=cols, center=cen)
        wide = ":wide" if len(Z) < d else ""
        r = C.call("pca:call" + wide, lambda: df.select(pds.pca(*F, center=cen).alias("o")).unnest("o"))
        if r is not None:
            if C.ok(r.columns == ["singular_value", "weight_vector"] and len(r) == min(len(Z), d), "pca:shape" + wide, r.shape):
                V = np.array(r["weight_vector"].to_list())
                if C.ok(V.shape == (min(len(Z), d), d), "pca:vshape" + wide, V.shape):
                    C.close(r["singular_value"], s, "pca:sv" + wide, 1e-8, 1e-8 * sc)
                    C.close(V @ V.T, np.eye(len(V)), "pca:orth" + wide, 1e-7, 1e-7)
                    C.close(((Z @ V.T) ** 2).sum(0), s ** 2, "pca:var" + wide, 1e-6, 1e-6 * sc * sc)
        if not nulls:
            k = int(rng.integers(1, d + 1))
            w2 = ":wide" if n < d else ""
            C.begin("principal components" + (" (fewer rows than columns)" if w2 else ""), X=cols, center=cen, k=k)
            r = C.call("pc:call" + w2, lambda: df.select(pds.principal_components(*F, k=k, center=cen).alias("o")).unnest("o"))
            if r is not None:
                C.ok(r.columns == [f"pc{i + 1}" for i in range(k)], "pc:cols" + w2, r.columns)
                if n >= k:
                    P = r.to_numpy()
                    if C.ok(P.shape == (n, k), "pc:shape" + w2, P.shape):
                        C.close(P.T @ P, np.diag(s[:k] ** 2), "pc:gram" + w2, 1e-6, 1e-6 * sc * sc)
                        # the components are the rows seen through an orthogonal basis of the row space
                        gap = all(abs(s[i] - s[i + 1]) > 1e-3 * sc for i in range(min(k, len(s) - 1)))
                        if gap and s[k - 1] > 1e-6 * sc:
                            U, S, Vt = np.linalg.svd(Z, full_matrices=False)
                            R = Z @ Vt[:k].T
                            C.close(np.abs(P), np.abs(R), "pc:values" + w2, 1e-5, 1e-6 * sc)
            if it % 6 == 0:
                sch = C.call("pc:schema", lambda: df.lazy().select(pds.principal_components(*F, k=k, center=cen).alias("o")).collect_schema())
                if sch is not None and r is not None:
                    C.begin("principal components: declared type", d=d, k=k)
                    C.ok([f.name for f in sch["o"].fields] == [f"pc{i + 1}" for i in range(k)], "pc:declared", sch["o"])
