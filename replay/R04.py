import numpy as np
from polars_ds.linear_models import OnlineLR, LR
from lrlib import *
RULE = "histories of 1..25 insertions, removals and weighted updates after an initial fit, single rows with missing values among them, with and without intercept and penalty, restarts from exported state; the oracle refits the multiset of rows; distinct by (clause, input)"


def wsolve(rows, lam, bias):
    X = np.array([r[0] for r in rows]); y = np.array([r[1] for r in rows]); w = np.array([r[2] for r in rows])
    A = np.column_stack([X, np.ones(len(X))]) if bias else X
    P = np.eye(A.shape[1]) * lam
    if bias:
        P[-1, -1] = 0
    G = (A * w[:, None]).T @ A + P
    return np.linalg.solve(G, (A * w[:, None]).T @ y), np.linalg.inv(G), np.linalg.cond(G)


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (2000 if not C.thorough else 60000):
        it += 1
        k = int(rng.choice([1, 2, 3, 5]))
        bias = bool(rng.random() < .5)
        lam = float(rng.choice([0.0, 0.0, .4, 3.0]))
        n0 = int(k + bias + rng.choice([1, 2, 6]))
        X = design(rng, n0, k, ["normal", "offset"][it % 2])
        y = target(rng, X)
        if cond(X, bias) > 60:
            continue
        rows = [(X[i], y[i], 1.0) for i in range(n0)]
        C.begin("the initial online fit equals the batch fit", X=X, y=y, l2=lam, bias=bias)
        m = C.call("fit:call", lambda: OnlineLR(lambda_=lam, has_bias=bias).fit(X, y.reshape(-1, 1)))
        if m is None:
            continue
        hist = []
        b, G, _ = wsolve(rows, lam, bias)
        C.close(m.coeffs(), b[:k], "fit:coeffs", 1e-7, 1e-8)
        C.close(m.inv(), G, "fit:inv", 1e-6, 1e-8)
        ok = True
        for step in range(int(rng.integers(1, 26))):
            u = rng.random()
            x = design(rng, 1, k)[0]
            t = float(rng.normal() * 2)
            if u < .5:
                op, c = "add", 1.0
            elif u < .7 and len(rows) > k + bias + 2:
                j = int(rng.integers(len(rows)))
                x, t, w = rows[j]
                if w != 1.0:
                    continue
                cand = rows[:j] + rows[j + 1:]
                if wsolve(cand, lam, bias)[2] > 2e3:
                    continue
                op, c = "remove", -1.0
            elif u < .85:
                op, c = "scaled", float(rng.choice([0.5, 2.0, 3.0]))
            else:
                op, c = "missing", 1.0
                x = x.copy()
                if rng.random() < .5:
                    x[rng.integers(k)] = np.nan
                else:
                    t = float("nan")
            hist.append([op, x.tolist(), float(t), c])
            C.begin({"add": "adding a row equals refitting with it", "remove": "removing a row equals refitting without it", "scaled": "an update with factor c equals a row of weight c",
                     "missing": "an update with a missing value changes nothing"}[op], X=X, y=y, l2=lam, bias=bias, history=hist)
            xa = x if rng.random() < .5 else x.reshape(1, -1)
            ta = float(t) if rng.random() < .5 else np.array([t])
            r = C.call("update:call:" + op, lambda: m.update(xa, ta, c))
            if r is None:
                ok = False
                break
            if op == "remove":
                rows = cand
            elif op != "missing":
                rows = rows + [(x, t, c)]
            b, G, cd = wsolve(rows, lam, bias)
            if cd > 1e5:
                break
            f1 = C.close(m.coeffs(), b[:k], "update:coeffs:" + op, 1e-5, 1e-6)
            f2 = C.close(m._lr.bias, b[-1] if bias else 0.0, "update:bias:" + op, 1e-5, 1e-6)
            f3 = C.close(m.inv(), G, "update:inv:" + op, 1e-4, 1e-6)
            if not (f1 and f2 and f3):
                ok = False
                break
            q = rng.normal(size=(3, k))
            C.close(m.predict(q).ravel(), apred(q, b, bias), "predict", 1e-5, 1e-5)
        if ok and cd < 1e4:
            C.begin("a model restarted from exported state continues the same history", X=X, y=y, l2=lam, bias=bias, history=hist)
            m2 = C.call("restart:call", lambda: OnlineLR.from_coeffs_bias_inverse(b[:k], b[-1] if bias else 0.0, G))
            if m2 is not None:
                x = rng.normal(size=k); t = float(rng.normal())
                r = C.call("restart:update", lambda: m2.update(x, t))
                if r is not None:
                    bb = wsolve(rows + [(x, t, 1.0)], lam, bias)[0]
                    C.close(m2.coeffs(), bb[:k], "restart:coeffs", 1e-5, 1e-6)
                    C.close(m2._lr.bias, bb[-1] if bias else 0.0, "restart:bias", 1e-5, 1e-6)
        C.begin("the bias accessor returns the fitted intercept", X=X, y=y, l2=lam, bias=bias)
        C.close(m.bias(), m._lr.bias, "bias-method")
    for bias in (False, True):
        C.begin("an unfitted model reports that it is not fitted", bias=bias)
        for cls in (OnlineLR, LR):
            r = C.call("unfitted:is_fit", lambda: cls(has_bias=bias).is_fit())
            C.ok(r is False, "unfitted:is_fit", r, False)
            C.ok(C.outcome(lambda: repr(cls(has_bias=bias)))[0] == "ok", "unfitted:repr")
