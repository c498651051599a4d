import numpy as np, polars as pl
import polars_ds as pds
import polars_ds.config as cfg
from polars_ds.linear_models import ElasticNet
from lrlib import *
RULE = "random designs with 1..8 features and 5..120 rows, lasso, ridge-dominated and mixed penalties from tiny to all-zeroing, with and without intercept; the oracle is the subgradient optimality condition of the documented objective; distinct by (clause, input)"


def kkt(X, y, b, l1, l2, bias):
    """largest violation of the optimality conditions of 1/(2n)|y-Xb-a|^2 + l1|b|_1 + l2/2|b|^2"""
    n = len(y)
    k = X.shape[1]
    r = y - apred(X, b, bias)
    g = X.T @ r / n - l2 * b[:k]
    v = 0.0
    for j in range(k):
        v = max(v, abs(g[j] - l1 * np.sign(b[j])) if b[j] != 0 else max(0.0, abs(g[j]) - l1))
    if bias:
        v = max(v, abs(r.mean()))
    return v


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (1500 if not C.thorough else 60000):
        it += 1
        k = int(rng.choice([1, 2, 3, 5, 8]))
        n = max(k + 2, int(rng.choice([5, 12, 40, 120])))
        bias = bool(rng.random() < .5)
        X = design(rng, n, k, ["normal", "offset"][it % 2] if not bias or k < 3 else "normal")
        if k > 2 and rng.random() < .3:
            X[:, 1] = X[:, 0] * .9 + X[:, 1] * .2
        y = target(rng, X)
        l1 = float(rng.choice([0.0, .001, .05, .3, 2.0, 50.0]))
        l2 = float(rng.choice([0.0, .01, .2, 3.0]))
        if l1 == 0.0:
            l1, l2 = .05, l2
        df = frame(X, y)
        sc = max(1.0, np.abs(X).max()) * max(1.0, np.abs(y).max())
        C.begin("elastic-net coefficients satisfy the optimality conditions", df=df, l1=l1, l2=l2, bias=bias)
        m = C.call("EN:call", lambda: ElasticNet(l1, l2, has_bias=bias, tol=1e-12, max_iter=20000).fit(X, y))
        if m is None:
            continue
        b = np.append(m.coeffs(), m.bias()) if bias else np.asarray(m.coeffs())
        C.ok(len(m.coeffs()) == k, "EN:length", len(m.coeffs()), k)
        C.ok(kkt(X, y, b, l1, l2, bias) < 1e-7 * sc, "EN:kkt", {"coeffs": b, "violation": kkt(X, y, b, l1, l2, bias)}, "violation 0")
        C.close(m.predict(X).ravel(), apred(X, b, bias), "EN:predict", 1e-8, 1e-8 * sc)
        r = C.call("expr:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=1e-10).alias("o"))["o"].to_list()[0])
        conv = True
        if r is not None:
            rb = np.array(r)
            # at most 2000 sweeps: judged only where the expression's own iterate agrees that it converged
            v = kkt(X, y, rb, l1, l2, bias)
            conv = cond(X, bias) < 30
            if conv:
                C.ok(v < 1e-6 * sc, "expr:kkt", {"coeffs": rb, "violation": v}, "violation 0")
        if conv:
            r2 = C.call("pred:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=1e-10, return_pred=True).alias("o"))["o"].struct.unnest())
            if r2 is not None:
                C.close(r2["pred"], apred(X, b, bias), "expr:pred", 1e-5, 1e-5 * sc)
                C.close(r2["resid"], y - apred(X, b, bias), "expr:resid", 1e-5, 1e-5 * sc)
            if it % 4 == 0:
                try:
                    cfg.LIN_REG_EXPR_F64 = False
                    r3 = C.call("f32:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=1e-6).alias("o"))["o"].to_list()[0])
                    r4 = C.call("f32:pred:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=1e-6, return_pred=True).alias("o"))["o"].struct.unnest())
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
                if r3 is not None and r4 is not None:
                    C.close(r4["pred"], apred(X, np.array(r3), bias), "f32:pred", 1e-3, 1e-3 * sc)
                    C.close(r4["resid"], y - apred(X, np.array(r3), bias), "f32:resid", 1e-3, 1e-3 * sc)
                if r3 is not None and cond(X, bias) < 10:
                    C.ok(kkt(X, y, np.array(r3), l1, l2, bias) < 1e-3 * sc or np.allclose(r3, b, rtol=2e-2, atol=2e-2), "f32:coeffs", r3, b)
        # l1 beyond the critical value zeroes everything
        yc = y - y.mean() if bias else y
        crit = np.abs(X.T @ yc).max() / n
        C.begin("a penalty beyond the critical value zeroes every coefficient", df=df, l1=crit * 1.01, bias=bias)
        m = ElasticNet(crit * 1.01 if not bias else (np.abs((X - X.mean(0)).T @ yc).max() / n) * 1.5 + np.abs(X).max() * abs(y.mean()) * 2 + crit, l2, has_bias=bias, tol=1e-12, max_iter=20000).fit(X, y)
        C.ok(np.all(np.asarray(m.coeffs()) == 0), "EN:all-zero", m.coeffs(), "zeros")
        m4 = ElasticNet.from_values(b[:k], b[-1] if bias else 0.0, feature_names_in_=xs(k))
        C.close(m4.predict(X).ravel(), apred(X, b, bias), "EN:from_values", 1e-8, 1e-8 * sc)
        C.close(m4.predict_df(df)["prediction"], apred(X, b, bias), "EN:predict_df", 1e-8, 1e-8 * sc)
    for bias in (False, True):
        C.begin("an unfitted elastic net reports that it is not fitted", bias=bias)
        r = C.call("unfitted:is_fit", lambda: ElasticNet(.1, .1, has_bias=bias).is_fit())
        C.ok(r is False, "unfitted:is_fit", r, False)
