import numpy as np, polars as pl
import polars_ds as pds
import polars_ds.config as cfg
from polars_ds.linear_models import LR
from lrlib import *
RULE = "random, integer, offset and badly scaled designs with 1..9 features and n from the parameter count to 200 rows, both switches, all solvers, f64 and f32; the normal equations and the textbook covariance formulas are the oracle; non-trivial when the design has full rank; distinct by (clause, input)"
LEG = np.polynomial.legendre.leggauss(200)
SOLVERS = ["qr", "svd", "cholesky", "choleskey"]


def t_cdf_p(t, dof):
    from math import lgamma, exp, log
    # two-sided p-value by numeric integration of the density
    import numpy as np
    c = exp(lgamma((dof + 1) / 2) - lgamma(dof / 2)) / np.sqrt(dof * np.pi)
    t = abs(t)
    # substitution t = sqrt(dof)*tan(u): density becomes cos(u)^(dof-1)
    a = np.arctan(t / np.sqrt(dof))
    u, w = LEG
    uu = (np.pi / 2 - a) / 2 * u + (np.pi / 2 + a) / 2
    return 2 * c * np.sqrt(dof) * float(((np.cos(uu) ** (dof - 1)) * w).sum() * (np.pi / 2 - a) / 2)


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 20000):
        it += 1
        k = int(rng.choice([1, 1, 2, 3, 4, 6, 9]))
        bias = bool(rng.random() < .5)
        n = int(rng.choice([k + bias, k + bias + 1, k + 3, 12, 30, 200]))
        n = max(n, k + bias)
        kind = ["normal", "int", "offset", "scaled"][it % 4]
        X = design(rng, n, k, kind)
        y = target(rng, X)
        if cond(X, bias) > 1e4:
            continue
        cond2 = cond(X, bias) ** 2
        tol = 1e-11 * max(cond2, 10)
        df = frame(X, y, {"w": rng.random(n) + .1, "y2": y * 2 - rng.normal(size=n)})
        lam = float(rng.choice([0.0, 0.0, 0.1, 1.0, 25.0]))
        solver = SOLVERS[int(rng.integers(4))]
        b = ridge(X, y, lam, bias)
        C.begin("coefficients solve the (ridge) normal equations", df=df, bias=bias, l2=lam, solver=solver)
        r = C.call("lin_reg:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, solver=solver).alias("o"))["o"].to_list()[0])
        if r is not None:
            C.close(r, b, "lin_reg:coeffs", tol, tol * np.abs(b).max(), "normal equations violated")
        r = C.call("lin_reg:pred-call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, solver=solver, return_pred=True).alias("o"))["o"].struct.unnest())
        p = apred(X, b, bias)
        sc = np.abs(y).max() + np.abs(p).max()
        if r is not None:
            C.close(r["pred"], p, "lin_reg:pred", tol, tol * sc)
            C.close(r["resid"], y - p, "lin_reg:resid", tol, tol * sc)
        w = df["w"].to_numpy()
        bw = ridge(X, y, 0, bias, w)
        C.begin("weighted least squares solves the weighted normal equations", df=df, bias=bias, solver=solver)
        r = C.call("wls:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, weights="w", solver=solver).alias("o"))["o"].to_list()[0])
        if r is not None:
            C.close(r, bw, "wls:coeffs", tol * 10, tol * 10 * np.abs(bw).max())
        r = C.call("wls:pred-call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, weights="w", solver=solver, return_pred=True).alias("o"))["o"].struct.unnest())
        if r is not None:
            C.close(r["pred"], apred(X, bw, bias), "wls:pred", tol * 10, tol * 10 * sc)
            C.close(r["resid"], y - apred(X, bw, bias), "wls:resid", tol * 10, tol * 10 * sc)
        C.begin("multi-target regression equals the regressions one by one", df=df, bias=bias, l2=lam, solver=solver)
        r = C.call("multi:call", lambda: df.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, l2_reg=lam, solver=solver).alias("o"))["o"].struct.unnest())
        b2 = ridge(X, df["y2"].to_numpy(), lam, bias)
        if r is not None:
            C.close(r.row(0)[0], b, "multi:coeffs0", tol, tol * np.abs(b).max())
            C.close(r.row(0)[1], b2, "multi:coeffs1", tol, tol * np.abs(b2).max())
        r = C.call("multi:pred-call", lambda: df.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, l2_reg=lam, solver=solver, return_pred=True).alias("o"))["o"].struct.unnest())
        if r is not None:
            p2 = apred(X, b2, bias)
            s2 = sc + np.abs(p2).max()
            for nm, want in zip(r.columns, [p, y - p, p2, df["y2"].to_numpy() - p2]):
                C.close(r[nm], want, "multi:" + nm, tol, tol * s2)
        # names: no name of a column changes the answer
        if it % 4 == 0:
            nms = ["literal", "__bias__", "lit", "a", "const", "intercept", "ones", "bias"]
            ren = {f"x{j}": nms[(j + it // 4) % 8] for j in range(min(k, 8))} | ({"y": "literal"} if (it // 4) % 8 > min(k, 8) else {})
            if len(set(ren.values())) == len(ren):
                dl = df.rename(ren)
                xl, yl = [ren.get(c, c) for c in xs(k)], ren.get("y", "y")
                C.begin("column names do not matter", df=dl, bias=bias, l2=lam, solver=solver)
                for f64 in (True, False):
                    tl, al = (tol, tol * np.abs(b).max()) if f64 else (2e-2, 2e-2 * np.abs(b).max())
                    try:
                        cfg.LIN_REG_EXPR_F64 = f64
                        r = C.call("names:call", lambda: dl.select(pds.lin_reg(*xl, target=yl, add_bias=bias, l2_reg=lam, solver=solver).alias("o"))["o"].to_list()[0])
                        r2 = C.call("names:multi", lambda: dl.select(pds.lin_reg(*xl, target=[yl, "y2"], add_bias=bias, l2_reg=lam, solver=solver).alias("o"))["o"].struct.unnest().row(0)[0])
                    finally:
                        cfg.LIN_REG_EXPR_F64 = True
                    for g in (r, r2):
                        if g is not None and (f64 or (cond(X, bias) < 30 and kind in ("normal", "int"))):
                            C.close(g, b, "names:coeffs", tl, al)
                        elif g is not None:
                            C.ok(len(g) == len(b), "names:count", len(g), len(b))
        # class
        C.begin("the model class fits and predicts the same solution", X=X, y=y, bias=bias, l2=lam, solver=solver)
        m = C.call("LR:call", lambda: LR(has_bias=bias, lambda_=lam, solver=solver).fit(X, y))
        if m is not None:
            C.close(m.coeffs(), b[:k], "LR:coeffs", tol, tol * np.abs(b).max())
            C.close(m._lr.bias, b[-1] if bias else 0.0, "LR:bias", tol, tol * np.abs(b).max())
            if hasattr(LR, "bias"):
                C.close(m.bias(), b[-1] if bias else 0.0, "LR:bias-method", tol, tol * np.abs(b).max())
            C.close(m.predict(X).ravel(), p, "LR:predict", tol, tol * sc)
            m2 = LR.from_values(b[:k], b[-1] if bias else 0.0, feature_names_in_=xs(k))
            C.close(m2.predict(X).ravel(), p, "LR:from_values", tol, tol * sc)
            C.close(m2.predict_df(df)["prediction"], p, "LR:predict_df", tol, tol * sc)
            m3 = LR(has_bias=bias, lambda_=lam, solver=solver).fit_df(df, xs(k), "y")
            C.close(m3.coeffs(), b[:k], "LR:fit_df", tol, tol * np.abs(b).max())
        # f32 twin
        if kind in ("normal", "int") and n > k + 2 and cond(X, bias) < 30:
            C.begin("the 32-bit variant solves the same problem", df=df, bias=bias, l2=lam, solver=solver)
            try:
                cfg.LIN_REG_EXPR_F64 = False
                r = C.call("f32:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, solver=solver).alias("o"))["o"].to_list()[0])
                if r is not None:
                    C.close(r, b, "f32:coeffs", 2e-2, 2e-2 * np.abs(b).max())
                r = C.call("f32:pred-call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, return_pred=True).alias("o"))["o"].struct.unnest())
                if r is not None:
                    C.close(r["pred"], p, "f32:pred", 2e-2, 2e-2 * sc)
                    C.close(r["resid"], y - p, "f32:resid", 2e-2, 2e-2 * sc)
                r = C.call("f32:wls-call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, weights="w").alias("o"))["o"].to_list()[0])
                if r is not None:
                    C.close(r, bw, "f32:wls", 2e-2, 2e-2 * np.abs(bw).max())
                r = C.call("f32:multi-call", lambda: df.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, l2_reg=lam).alias("o"))["o"].struct.unnest())
                if r is not None:
                    C.close(r.row(0)[1], b2, "f32:multi", 2e-2, 2e-2 * np.abs(b2).max())
                r = C.call("f32:multi-pred-call", lambda: df.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, l2_reg=lam, solver=solver, return_pred=True).alias("o"))["o"].struct.unnest())
                if r is not None:
                    p2 = apred(X, b2, bias)
                    for nm, want in zip(r.columns, [p, y - p, p2, df["y2"].to_numpy() - p2]):
                        C.close(r[nm], want, "f32:multi:" + nm, 2e-2, 2e-2 * (sc + np.abs(p2).max()))
                A = np.column_stack([X, np.ones(n)]) if bias else X
                sv = np.linalg.svd(A, compute_uv=False)
                for rc in (0., .4):
                    if np.min(np.abs(sv / sv[0] - rc)) > 2e-2:
                        r = C.call("f32:rcond-call", lambda: df.select(pds.lin_reg_w_rcond(*xs(k), target="y", add_bias=bias, rcond=rc).alias("o"))["o"].struct.unnest())
                        if r is not None:
                            want = np.linalg.lstsq(A, y, rcond=rc)[0]
                            C.close(r["singular_values"].to_list()[0], sv, "f32:rcond:singular-values", 1e-2, 1e-2 * sv[0])
                            C.close(r["coeffs"].to_list()[0], want, "f32:rcond:coeffs", 2e-2, 2e-2 * max(np.abs(want).max(), np.abs(b).max()))
            finally:
                cfg.LIN_REG_EXPR_F64 = True
            if n >= A.shape[1] + 4:
                for kw in [dict(std_err=q) for q in ("se", "hc0", "hc1", "hc2", "hc3")] + [dict(weights="w")]:
                    e = pds.lin_reg_report(*xs(k), target="y", add_bias=bias, **kw)
                    g = df.select(e.alias("o")).unnest("o")
                    try:
                        cfg.LIN_REG_EXPR_F64 = False
                        e = pds.lin_reg_report(*xs(k), target="y", add_bias=bias, **kw)
                        r = C.call("f32:report-call", lambda: df.select(e.alias("o")).unnest("o"))
                    finally:
                        cfg.LIN_REG_EXPR_F64 = True
                    if r is not None:
                        C.ok(r.columns == g.columns and r["features"].to_list() == g["features"].to_list(), "f32:report:names", r.columns, g.columns)
                        smooth = g[g.columns[2]].min() > 1e-3 * np.abs(y).max()
                        for c in g.columns[1:]:
                            if smooth and g[c].is_finite().all():
                                C.close(r[c], g[c].to_list(), "f32:report:" + c, 3e-2, 3e-2 * (1 if c in ("p>|t|", "r2", "adj_r2") else max(1e-3, g[c].abs().max())))
        # simple
        if k == 1:
            x = X[:, 0]
            for ww in (None, "w"):
                C.begin("one-variable regression equals the closed form", df=df, bias=bias, weights=ww)
                bb = b if (ww is None and lam == 0) else ridge(X, y, 0, bias, w if ww else None)
                r = C.call("simple:call", lambda: df.select(pds.simple_lin_reg("x0", target="y", add_bias=bias, weights=ww).alias("o"))["o"].to_list()[0])
                if r is not None:
                    C.close(r, bb, "simple:coeffs", tol * 10, tol * 10 * np.abs(bb).max())
                r = C.call("simple:pred-call", lambda: df.select(pds.simple_lin_reg("x0", target="y", add_bias=bias, weights=ww, return_pred=True).alias("o"))["o"].struct.unnest())
                if r is not None:
                    C.close(r["pred"], apred(X, bb, bias), "simple:pred", tol * 10, tol * 10 * sc)
                    C.close(r["resid"], y - apred(X, bb, bias), "simple:resid", tol * 10, tol * 10 * sc)
        # rcond
        A = np.column_stack([X, np.ones(n)]) if bias else X
        sv = np.linalg.svd(A, compute_uv=False)
        rc = float(rng.choice([0.0, 0.05, 0.3, 0.7]))
        if np.min(np.abs(sv / sv[0] - rc)) > 1e-3:
            C.begin("singular values below rcond times the largest are dropped", df=df, bias=bias, rcond=rc)
            r = C.call("rcond:call", lambda: df.select(pds.lin_reg_w_rcond(*xs(k), target="y", add_bias=bias, rcond=rc).alias("o"))["o"].struct.unnest())
            if r is not None:
                C.close(r["singular_values"].to_list()[0], sv, "rcond:singular-values", 1e-6, 1e-6 * sv[0])
                want = np.linalg.lstsq(A, y, rcond=rc)[0]
                C.close(r["coeffs"].to_list()[0], want, "rcond:coeffs", tol * 10, tol * 10 * (np.abs(want).max() + np.abs(b).max()))
        # report
        dof = n - A.shape[1]
        if dof >= 2:
            G = np.linalg.inv(A.T @ A)
            bb = ridge(X, y, 0, bias)
            res = y - A @ bb
            h = np.einsum("ij,jk,ik->i", A, G, A)
            if h.max() < 1 - 1e-6:
                for se in ("se", "hc0", "hc1", "hc2", "hc3"):
                    C.begin("regression report: coefficients, standard errors, intervals and fit", df=df, bias=bias, std_err=se)
                    r = C.call("report:call", lambda: df.select(pds.lin_reg_report(*xs(k), target="y", add_bias=bias, std_err=se).alias("o")).unnest("o"))
                    if r is None:
                        continue
                    if se == "se":
                        v = np.diag(G) * (res @ res) / dof
                    else:
                        u = {"hc0": res ** 2, "hc1": res ** 2 * n / dof, "hc2": res ** 2 / (1 - h), "hc3": res ** 2 / (1 - h) ** 2}[se]
                        v = np.diag(G @ A.T @ np.diag(u) @ A @ G)
                    s = np.sqrt(v)
                    C.ok(r["features"].to_list() == xs(k) + (["__bias__"] if bias else []), "report:names", r["features"])
                    C.close(r["beta"], bb, "report:beta", tol, tol * np.abs(bb).max())
                    C.close(r[r.columns[2]], s, "report:std_err:" + se, 1e-6, tol * s.max())
                    C.close(r["t"], bb / s, "report:t", 1e-5, 1e-5)
                    t = bb / s
                    pv = np.array([t_cdf_p(x, dof) for x in t])
                    C.close(r["p>|t|"], pv, "report:p", 1e-5, 1e-6)
                    lo, hi = r["0.025"].to_numpy(), r["0.975"].to_numpy()
                    C.close((lo + hi) / 2, bb, "report:interval-centre", 1e-6, 1e-6 * np.abs(bb).max())
                    C.close([t_cdf_p((x - y_) / z, dof) for x, y_, z in zip(hi, bb, s)], [0.05] * len(bb), "report:interval-level", 1e-3, 1e-5)
                    if bias:
                        r2 = 1 - (res @ res) / ((y - y.mean()) ** 2).sum()
                        C.close(r["r2"][0], r2, "report:r2", 1e-6, 1e-8)
                        C.close(r["adj_r2"][0], 1 - (1 - r2) * (n - 1) / dof, "report:adj_r2", 1e-6, 1e-8)
                C.begin("weighted report: coefficients and standard errors", df=df, bias=bias)
                r = C.call("wreport:call", lambda: df.select(pds.lin_reg_report(*xs(k), target="y", add_bias=bias, weights="w").alias("o")).unnest("o"))
                if r is not None:
                    Gw = np.linalg.inv((A * w[:, None]).T @ A)
                    rw = y - A @ bw
                    s = np.sqrt(np.diag(Gw) * (w * rw * rw).sum() / dof)
                    C.close(r["beta"], bw, "wreport:beta", tol * 10, tol * 10 * np.abs(bw).max())
                    C.close(r[r.columns[2]], s, "wreport:std_err", 1e-6, 1e-9)
                    C.close(r["t"], bw / s, "wreport:t", 1e-5, 1e-5)
                    C.close(r["p>|t|"], [t_cdf_p(x, dof) for x in bw / s], "wreport:p", 1e-5, 1e-6)
                    lo, hi = r["0.025"].to_numpy(), r["0.975"].to_numpy()
                    C.close((lo + hi) / 2, bw, "wreport:interval-centre", 1e-6, 1e-6 * np.abs(bw).max())
                    C.close([t_cdf_p((x - y_) / z, dof) for x, y_, z in zip(hi, bw, s)], [0.05] * len(bw), "wreport:interval-level", 1e-3, 1e-5)
