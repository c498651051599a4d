import numpy as np, polars as pl
import polars_ds as pds
from common import hide
import polars_ds.config as cfg
from lrlib import *
RULE = "frames of 10..60 rows, windows from the parameter count up to the number of rows, start positions likewise, with and without intercept, penalty, missing values and minimum valid rows; the oracle refits every window; non-trivial when more than one window; distinct by (clause, input)"


def nul(a):
    return pl.Series(values=[None if np.isnan(v) else float(v) for v in a], dtype=pl.Float64)


def cmp(C, r, wantc, wantp, key, tol):
    gc, gp = r["coeffs"].to_list(), r["prediction" if "prediction" in r.columns else r.columns[1]].to_list()
    C.ok(len(gc) == len(wantc), key + ":length", len(gc), len(wantc))
    for i, (a, b) in enumerate(zip(gc, wantc)):
        if b is None:
            if not C.ok(a is None, key + ":null-rows", {"row": i, "got": a}, None):
                return
        elif b is not False:
            if not C.close(a, b, key + ":coeffs", tol, tol * np.abs(b).max(), f"row {i}"):
                return
    for i, (a, b) in enumerate(zip(gp, wantp)):
        if b is False:
            continue
        if b is None:
            if not C.ok(a is None, key + ":null-pred", {"row": i, "got": a}, None):
                return
        elif not C.close(a, b, key + ":pred", tol, tol * (1 + abs(b)) * 10, f"row {i}"):
            return


def rolling_oracle(Xn, yn, n, lam, bias, mv):
    wc, wp = [], []
    bad = np.isnan(Xn).any(1) | np.isnan(yn)
    for i in range(len(Xn)):
        if i < n - 1:
            wc.append(None); wp.append(None)
            continue
        ok = ~bad[i - n + 1:i + 1]
        if ok.sum() < mv:
            wc.append(None); wp.append(None)
            continue
        A, t = Xn[i - n + 1:i + 1][ok], yn[i - n + 1:i + 1][ok]
        if len(A) < A.shape[1] + bias or cond(A, bias) > 200:
            return None
        b = ridge(A, t, lam, bias)
        wc.append(b)
        wp.append(float(apred(Xn[i:i + 1], b, bias)[0]) if not np.isnan(Xn[i]).any() else False)
    return wc, wp


def recursive_oracle(Xn, yn, n, lam, bias, drop, rowok):
    wc, wp = [], []
    bad = drop
    for i in range(len(Xn)):
        ok = ~bad[:i + 1]
        if bad[i] or ok.sum() < n:
            wc.append(None); wp.append(None)
            continue
        A, t = Xn[:i + 1][ok], yn[:i + 1][ok]
        if cond(A, bias) > 200:
            return None
        b = ridge(A, t, lam, bias)
        wc.append(b)
        wp.append(float(apred(Xn[i:i + 1], b, bias)[0]))
    return wc, wp


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 20000):
        it += 1
        k = int(rng.choice([1, 2, 3]))
        bias = bool(rng.random() < .5)
        N = int(rng.choice([10, 15, 30, 60]))
        p = k + bias
        X = design(rng, N, k, ["normal", "offset"][it % 2])
        y = target(rng, X)
        lam = float(rng.choice([0.0, 0.0, 0.3, 5.0]))
        df = frame(X, y)
        n = int(min(N, p + rng.choice([0, 1, 2, 4, 8])))
        n = max(n, 2, k)
        tol = 1e-6
        o = rolling_oracle(X, y, n, lam, bias, 1)
        pen = ":intercept-penalty" if (bias and lam > 0) else ""
        if o:
            C.begin("each rolling window equals its own refit", df=df, window=n, l2=lam, bias=bias)
            r = C.call("rolling:call", lambda: df.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=n, l2_reg=lam, add_bias=bias).alias("o"))["o"].struct.unnest())
            if r is not None:
                cmp(C, r, *o, "rolling" + pen, tol)
            if it % 4 == 0 and n > p + 2:
                try:
                    cfg.LIN_REG_EXPR_F64 = False
                    r = C.call("f32:rolling:call", lambda: df.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=n, l2_reg=lam, add_bias=bias).alias("o"))["o"].struct.unnest())
                    if r is not None and max((cond(X[i:i + n], bias) for i in range(N - n + 1)), default=1) < 15:
                        cmp(C, r, *o, "f32:rolling" + pen, .1)
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
        s = int(min(N, p + rng.choice([0, 1, 2, 5])))
        o = recursive_oracle(X, y, s, lam, bias, np.zeros(N, bool), None)
        if o:
            C.begin("each recursive step equals the refit of all rows so far", df=df, start_with=s, l2=lam, bias=bias)
            r = C.call("recursive:call", lambda: df.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=s, l2_reg=lam, add_bias=bias).alias("o"))["o"].struct.unnest())
            if r is not None:
                cmp(C, r, *o, "recursive" + pen, tol)
            if it % 4 == 1 and s > p + 2 and max((cond(X[:i + 1], bias) for i in range(s - 1, N)), default=1) < 15:
                try:
                    cfg.LIN_REG_EXPR_F64 = False
                    r = C.call("f32:recursive:call", lambda: df.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=s, l2_reg=lam, add_bias=bias).alias("o"))["o"].struct.unnest())
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
                if r is not None:
                    cmp(C, r, *o, "f32:recursive" + pen, .1)
        # a window (start) beyond the data: every row is before the first full window
        if it % 5 == 0:
            q = int(rng.integers(N + 1, 2 * N + 3))
            none = [None] * N
            C.begin("rows before the first full window are missing, also when there is no full window", df=df, window=q, l2=lam, bias=bias)
            for f64 in (True, False):
                try:
                    cfg.LIN_REG_EXPR_F64 = f64
                    r = C.call("rolling-short:call", lambda: df.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=q, l2_reg=lam, add_bias=bias).alias("o"))["o"].struct.unnest())
                    if r is not None:
                        cmp(C, r, none, none, "rolling-short", tol)
                    r = C.call("recursive-short:call", lambda: df.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=q, l2_reg=lam, add_bias=bias).alias("o"))["o"].struct.unnest())
                    if r is not None:
                        cmp(C, r, none, none, "recursive-short", tol)
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
        # missing values
        Xn, yn = X.copy(), y.copy()
        style = it % 3
        if style == 0:
            for i in rng.choice(N, max(1, N // 6), replace=False):
                Xn[i, rng.integers(0, k)] = np.nan
        elif style == 1:
            a = int(rng.integers(0, N - 3))
            Xn[a:a + int(rng.integers(2, 6)), 0] = np.nan
        else:
            yn[rng.choice(N, 2, replace=False)] = np.nan
            Xn[0, 0] = np.nan
        dn = hide(pl.DataFrame([nul(Xn[:, j]).alias(f"x{j}") for j in range(k)] + [nul(yn).alias("y")]))
        mv = int(rng.integers(p, max(p + 1, n)))
        o = rolling_oracle(Xn, yn, n, lam, bias, mv)
        if o and mv <= n:
            C.begin("rolling windows skip rows with missing values", df=dn, window=n, min_valid_rows=mv, l2=lam, bias=bias)
            r = C.call("rolling-skip:call", lambda: dn.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=n, l2_reg=lam, add_bias=bias, min_valid_rows=mv, null_policy="skip").alias("o"))["o"].struct.unnest())
            if r is not None:
                cmp(C, r, *o, "rolling-skip" + pen, tol)
            if all(b is None or b is False for b in o[0]) or min(cond(X, bias), 99) < 8 and mv > p + 2:
                try:
                    cfg.LIN_REG_EXPR_F64 = False
                    r = C.call("f32:rolling-skip:call", lambda: dn.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=n, l2_reg=lam, add_bias=bias, min_valid_rows=mv, null_policy="skip").alias("o"))["o"].struct.unnest())
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
                if r is not None:
                    cmp(C, r, *o, "f32:rolling-skip" + pen, .2)
        if not np.isnan(yn).any():
            Xf = np.where(np.isnan(Xn), 1.0, Xn)
            o = rolling_oracle(Xf, yn, n, lam, bias, 1)
            if o:
                C.begin("rolling windows over filled values", df=dn, window=n, l2=lam, bias=bias)
                r = C.call("rolling-fill:call", lambda: dn.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=n, l2_reg=lam, add_bias=bias, null_policy="one").alias("o"))["o"].struct.unnest())
                if r is not None:
                    cmp(C, r, *o, "rolling-fill" + pen, tol)
        drop = np.isnan(Xn).any(1) | np.isnan(yn)
        C.begin("one entry per row under every null policy", df=dn, window=n, start_with=s, l2=lam, bias=bias)
        for pol in ("ignore", "skip", "zero"):
            for f64 in (True, False):
                try:
                    cfg.LIN_REG_EXPR_F64 = f64
                    for q in (n, N + 1):
                        r = C.call("rolling-height:call", lambda: dn.select(pds.rolling_lin_reg(*xs(k), target="y", window_size=q, l2_reg=lam, add_bias=bias, null_policy=pol).alias("o")).height)
                        C.ok(r is None or r == N, "rolling:height", r, N)
                    for q in ([s] if pol == "ignore" or (~drop).sum() >= s else []) + [N + 1]:
                        r = C.call("recursive-height:call", lambda: dn.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=q, l2_reg=lam, add_bias=bias, null_policy=pol).alias("o")).height)
                        C.ok(r is None or r == N, "recursive:height", r, N)
                finally:
                    cfg.LIN_REG_EXPR_F64 = True
        if (~drop).sum() >= s:
            o = recursive_oracle(Xn, yn, s, lam, bias, drop, None)
            if o:
                C.begin("recursive steps skip rows with missing values", df=dn, start_with=s, l2=lam, bias=bias)
                r = C.call("recursive-skip:call", lambda: dn.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=s, l2_reg=lam, add_bias=bias, null_policy="skip").alias("o"))["o"].struct.unnest())
                if r is not None:
                    cmp(C, r, *o, "recursive-skip" + pen, tol)
                if s > p + 2 and max((cond(Xn[:i + 1][~drop[:i + 1]], bias) for i in range(N) if (~drop[:i + 1]).sum() >= s), default=1) < 15:
                    try:
                        cfg.LIN_REG_EXPR_F64 = False
                        r = C.call("f32:recursive-skip:call", lambda: dn.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=s, l2_reg=lam, add_bias=bias, null_policy="skip").alias("o"))["o"].struct.unnest())
                    finally:
                        cfg.LIN_REG_EXPR_F64 = True
                    if r is not None:
                        cmp(C, r, *o, "f32:recursive-skip" + pen, .1)
            Xf = np.where(np.isnan(Xn), 0.0, Xn)
            o = recursive_oracle(Xf, yn, s, lam, bias, np.isnan(yn), None)
            if o and (~np.isnan(yn)).sum() >= s:
                C.begin("recursive steps over filled values", df=dn, start_with=s, l2=lam, bias=bias)
                r = C.call("recursive-fill:call", lambda: dn.select(pds.recursive_lin_reg(*xs(k), target="y", start_with=s, l2_reg=lam, add_bias=bias, null_policy="zero").alias("o"))["o"].struct.unnest())
                if r is not None:
                    cmp(C, r, *o, "recursive-fill" + pen, tol)
