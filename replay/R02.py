import numpy as np, polars as pl
import polars_ds as pds
from common import hide
import polars_ds.config as cfg
from polars_ds.linear_models import LR, ElasticNet
from lrlib import *
RULE = "frames of 12..80 rows with missing values in features, target or both (none, one, several, leading and trailing rows), every null policy, chunked columns; the oracle drops or fills the rows first and refits; non-trivial when a value is missing; distinct by (clause, input)"


def treat(Xn, yn, policy):
    """(rows kept, X used, y used) per the documented policy; NaN marks null"""
    xm, ym = np.isnan(Xn).any(1), np.isnan(yn)
    if policy == "skip":
        keep = ~(xm | ym)
        return keep, Xn[keep], yn[keep]
    v = {"zero": 0.0, "one": 1.0}.get(policy)
    v = float(policy) if v is None else v
    keep = ~ym
    return keep, np.where(np.isnan(Xn), v, Xn)[keep], yn[keep]


def nul(a):
    return pl.Series(values=[None if np.isnan(v) else float(v) for v in a], dtype=pl.Float64)


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 20000):
        it += 1
        k = int(rng.choice([1, 2, 3, 5]))
        bias = bool(rng.random() < .5)
        n = int(rng.choice([12, 25, 40, 80]))
        X = design(rng, n, k)
        y = target(rng, X)
        Xn, yn = X.copy(), y.copy()
        where = it % 5
        m = int(rng.integers(1, 4))
        if where in (0, 2, 4):
            for i in rng.choice(n, m, replace=False):
                Xn[i, rng.integers(0, k)] = np.nan
        if where in (1, 2):
            yn[rng.choice(n, m, replace=False)] = np.nan
        if where == 3:
            yn[0] = np.nan
            Xn[-1, 0] = np.nan
            Xn[n // 2, -1] = np.nan
        df = hide(pl.DataFrame([nul(Xn[:, j]).alias(f"x{j}") for j in range(k)] + [nul(yn).alias("y")]))
        if it % 3 == 0:
            c = int(rng.integers(1, n))
            df = pl.concat([df[:c], df[c:]], rechunk=False)
        lam = float(rng.choice([0.0, 0.5]))
        for policy in ("skip", "zero", "one", "1.25", "-3"):
            keep, Xu, yu = treat(Xn, yn, policy)
            if len(Xu) < k + bias + 2 or cond(Xu, bias) > 1e3:
                continue
            b = ridge(Xu, yu, lam, bias)
            tol = 1e-8
            C.begin("coefficients under a null policy equal those of the treated frame", df=df, policy=policy, bias=bias, l2=lam)
            r = C.call("coeffs:call:" + policy, lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, null_policy=policy).alias("o"))["o"].to_list()[0])
            if r is not None:
                C.close(r, b, "coeffs:" + policy, tol, tol)
            C.begin("predictions stay on their own rows under a null policy", df=df, policy=policy, bias=bias, l2=lam)
            r = C.call("pred:call:" + policy, lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, null_policy=policy, return_pred=True).alias("o"))["o"].struct.unnest())
            if r is not None:
                want = np.full(n, np.nan)
                want[keep] = apred(Xu, b, bias)
                wr = np.full(n, np.nan)
                wr[keep] = yu - apred(Xu, b, bias)
                C.ok(r.height == n, "pred:height", r.height, n)
                C.close(r["pred"], want, "pred:" + policy, tol, tol)
                C.close(r["resid"], wr, "resid:" + policy, tol, tol)
            if lam == 0:
                C.begin("the report under a null policy equals that of the treated frame", df=df, policy=policy, bias=bias)
                clean = frame(Xu, yu)
                a = C.call("report:call", lambda: df.select(pds.lin_reg_report(*xs(k), target="y", add_bias=bias, null_policy=policy).alias("o")).unnest("o"))
                d = clean.select(pds.lin_reg_report(*xs(k), target="y", add_bias=bias).alias("o")).unnest("o")
                if a is not None:
                    for c in d.columns:
                        C.close(a[c], d[c], "report:" + c, 1e-7, 1e-8)
                C.begin("the rcond solution under a null policy equals that of the treated frame", df=df, policy=policy, bias=bias)
                a = C.call("rcond:call", lambda: df.select(pds.lin_reg_w_rcond(*xs(k), target="y", add_bias=bias, null_policy=policy).alias("o"))["o"].struct.field("coeffs").to_list()[0])
                if a is not None:
                    C.close(a, b, "rcond:coeffs", tol, tol)
            C.begin("f32 predictions stay on their own rows under a null policy", df=df, policy=policy, bias=bias, l2=lam)
            try:
                cfg.LIN_REG_EXPR_F64 = False
                r = C.call("f32:call:" + policy, lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, l2_reg=lam, null_policy=policy, return_pred=True).alias("o"))["o"].struct.unnest())
            finally:
                cfg.LIN_REG_EXPR_F64 = True
            if r is not None and cond(Xu, bias) < 20:
                want = np.full(n, np.nan)
                want[keep] = apred(Xu, b, bias)
                C.close(r["pred"], want, "f32:pred:" + policy, 2e-2, 2e-2 * np.nanmax(np.abs(want)))
            C.begin("model classes under a null policy equal a fit of the treated data", df=df, policy=policy, bias=bias, l2=lam)
            m_ = C.call("LR:fit_df", lambda: LR(has_bias=bias, lambda_=lam).fit_df(df, xs(k), "y", null_policy=policy))
            if m_ is not None:
                C.close(m_.coeffs(), b[:k], "LR:fit_df:" + policy, tol, tol)
            m_ = C.call("LR:fit", lambda: LR(has_bias=bias, lambda_=lam).fit(Xn.copy(), yn.copy(), null_policy=policy))
            if m_ is not None:
                C.close(m_.coeffs(), b[:k], "LR:fit:" + policy, tol, tol)
            if it % 7 == 0:
                e1 = ElasticNet(.1, .1, has_bias=bias, tol=1e-10).fit(Xu, yu).coeffs()
                C.close(ElasticNet(.1, .1, has_bias=bias, tol=1e-10).fit_df(df, xs(k), "y", null_policy=policy).coeffs(), e1, "EN:fit_df:" + policy, 1e-6, 1e-7)
                C.close(ElasticNet(.1, .1, has_bias=bias, tol=1e-10).fit(Xn.copy(), yn.copy(), null_policy=policy).coeffs(), e1, "EN:fit:" + policy, 1e-6, 1e-7)
        C.begin("the ignore policy drops no row", df=df, bias=bias)
        bad = np.isnan(Xn).any(1) | np.isnan(yn)
        for f64 in (True, False):
            try:
                cfg.LIN_REG_EXPR_F64 = f64
                r = C.call("ignore:call", lambda: df.select(pds.lin_reg(*xs(k), target="y", add_bias=bias, null_policy="ignore", return_pred=True).alias("o"))["o"].struct.unnest())
            finally:
                cfg.LIN_REG_EXPR_F64 = True
            if r is not None and C.ok(r.height == n, "ignore:height", r.height, n) and not bad.any():
                b = ridge(Xn, yn, 0, bias)
                if cond(Xn, bias) < (1e3 if f64 else 20):
                    C.close(r["pred"], apred(Xn, b, bias), "ignore:pred", 1e-7 if f64 else 2e-2, 1e-7 if f64 else 2e-2 * np.abs(yn).max())
        C.begin("null policy raise refuses missing values", df=df)
        for nm, f in {"lin_reg": lambda: df.select(pds.lin_reg(*xs(k), target="y", null_policy="raise")), "report": lambda: df.select(pds.lin_reg_report(*xs(k), target="y")),
                      "rolling": lambda: df.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=k + 3)), "recursive": lambda: df.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=k + 3)),
                      "LR": lambda: LR().fit_df(df, xs(k), "y", null_policy="raise")}.items():
            C.raises("raise:" + nm, f)
        # multi target, fill
        if not np.isnan(yn).any():
            keep, Xu, yu = treat(Xn, yn, "1.25")
            d2 = df.with_columns(y2=pl.col("y") * -2 + 1)
            C.begin("multi-target predictions under a fill policy", df=d2, bias=bias)
            b = ridge(Xu, yu, 0, bias)
            r = C.call("multi:call", lambda: d2.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, null_policy="1.25", return_pred=True).alias("o"))["o"].struct.unnest())
            if r is not None:
                C.close(r[r.columns[0]], apred(Xu, b, bias), "multi:pred", 1e-7, 1e-8)
                C.close(r[r.columns[3]], -2 * yu + 1 - apred(Xu, ridge(Xu, -2 * yu + 1, 0, bias), bias), "multi:resid", 1e-7, 1e-7)
            if cond(Xu, bias) < 20:
                try:
                    cfg.LIN_REG_EXPR_F64 = False
                    r = C.call("multi:f32:call", lambda: d2.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, null_policy="1.25", return_pred=True).alias("o"))["o"].struct.unnest())
                    r2 = C.call("multi:f32:coeffs", lambda: d2.select(pds.lin_reg(*xs(k), target=["y", "y2"], add_bias=bias, null_policy="1.25").alias("o"))["o"].struct.unnest().row(0)[0])
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
                if r is not None:
                    C.close(r[r.columns[0]], apred(Xu, b, bias), "multi:f32:pred", 2e-2, 2e-2 * np.abs(yu).max())
                if r2 is not None:
                    C.close(r2, b, "multi:f32:coeffs", 2e-2, 2e-2 * np.abs(b).max())
        for f64 in (True, False):
            try:
                cfg.LIN_REG_EXPR_F64 = f64
                if np.isnan(Xn).any():
                    C.raises("multi:raise", lambda: df.with_columns(y=pl.col("y").fill_null(0.)).select(pds.lin_reg(*xs(k), target=["y", "y"], null_policy="raise")))
                if np.isnan(Xn).any() or np.isnan(yn).any():
                    C.raises("f32:raise" if not f64 else "raise:pred", lambda: df.select(pds.lin_reg(*xs(k), target="y", null_policy="raise", return_pred=True)))
                if np.isnan(yn).any():
                    C.raises("multi:fill:missing-target", lambda: df.with_columns(y2=pl.col("y") * 2).select(pds.lin_reg(*xs(k), target=["y", "y2"], null_policy="1.25")))
            finally:
                cfg.LIN_REG_EXPR_F64 = True
