import numpy as np, polars as pl, math
import polars_ds as pds
from polars_ds.exprs import metrics as M
RULE = "label and score columns of 2..300 rows, continuous, heavily tied, constant, integer and f32 scores, one positive or one negative; the oracle counts pairs and thresholds; non-trivial when both classes occur; distinct by (clause, input)"


def auc(y, s):
    P, N = s[y], s[~y]
    return ((P[:, None] > N[None, :]).sum() + .5 * (P[:, None] == N[None, :]).sum()) / (len(P) * len(N))


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 80000):
        it += 1
        n = int(rng.choice([2, 3, 4, 8, 30, 300]))
        y = rng.random(n) < rng.choice([.2, .5, .8])
        if not y.any():
            y[rng.integers(n)] = True
        if y.all():
            y[rng.integers(n)] = False
        kind = it % 5
        s = rng.random(n)
        if kind == 1:
            s = rng.integers(0, 4, n) / 4
        elif kind == 2:
            s = np.full(n, .3)
        elif kind == 3:
            s = rng.integers(-3, 3, n).astype(float)
        elif kind == 4:
            s = np.where(rng.random(n) < .5, .9, s)
        if it % 11 == 0:
            s = np.float32(s).astype(float)
        df = pl.DataFrame({"y": y.astype(int) if it % 2 else y, "s": s})
        inp = dict(y=y, score=s)
        C.begin("ROC AUC is the probability that a positive outranks a negative, ties counted half", **inp)
        a = auc(y, s)
        r = C.call("auc:call", lambda: df.select(pds.query_roc_auc("y", "s").alias("o"))["o"][0])
        if r is not None:
            C.close(r, a, "auc", 1e-9, 1e-12)
        C.close(df.select(M.query_gini("y", "s").alias("o"))["o"][0], 2 * a - 1, "gini", 1e-9, 1e-11)
        C.begin("each threshold has its true and false positive rate", **inp)
        r = C.call("tprfpr:call", lambda: df.select(pds.query_tpr_fpr("y", "s").alias("o"))["o"].struct.unnest())
        if r is not None:
            t = np.unique(s)
            C.close(r["threshold"], t, "tprfpr:threshold", 1e-12, 0)
            C.close(r["tpr"], [(s[y] >= x).mean() for x in t], "tprfpr:tpr", 1e-9, 1e-12)
            C.close(r["fpr"], [(s[~y] >= x).mean() for x in t], "tprfpr:fpr", 1e-9, 1e-12)
        C.begin("precision, recall, F, average precision and AUC of the combined metrics", **inp)
        th = float(rng.choice([.5, .25, .3, 5.0])) if it % 3 else float(s[rng.integers(n)])
        pr = s >= th
        C.case_input["threshold"] = th
        r = C.call("combo:call", lambda: df.select(pds.query_binary_metrics("y", "s", th).alias("o"))["o"].struct.unnest().row(0, named=True))
        if r is not None:
            C.close(r["roc_auc"], a, "combo:auc", 1e-9, 1e-12)
            C.close(r["recall"], (pr & y).sum() / y.sum(), "combo:recall", 1e-9, 1e-12)
            if pr.any():
                C.close(r["precision"], (pr & y).sum() / pr.sum(), "combo:precision", 1e-9, 1e-12)
                if (pr & y).any():
                    p_, r_ = (pr & y).sum() / pr.sum(), (pr & y).sum() / y.sum()
                    C.close(r["f"], 2 * p_ * r_ / (p_ + r_), "combo:f", 1e-9, 1e-12)
            t = np.unique(s)
            R = [(s[y] >= x).mean() for x in t] + [0.0]
            Pq = [y[s >= x].mean() for x in t]
            ap = sum((R[i] - R[i + 1]) * Pq[i] for i in range(len(t)))
            C.close(r["average_precision"], ap, "combo:average_precision", 1e-9, 1e-12)
        if it % 5 == 0:
            k = 3
            lab = rng.integers(0, k, n)
            lab[:min(n, k)] = np.arange(min(n, k))
            if n > k:
                pm = rng.integers(0, 6, (n, k)) / 6
                d2 = pl.DataFrame({"a": lab, "p": pm.tolist()})
                C.begin("multi-class AUC is the mean of the one-versus-rest AUCs", labels=lab, pred=pm)
                A = [auc(lab == i, pm[:, i]) for i in range(k)]
                w = [(lab == i).sum() for i in range(k)]
                r = C.call("multi:call", lambda: d2.select(pds.query_multi_roc_auc("a", "p", k, "macro").alias("o"))["o"][0])
                if r is not None:
                    C.close(r, np.mean(A), "multi:macro", 1e-9, 1e-12)
                r = C.call("multiw:call", lambda: d2.select(pds.query_multi_roc_auc("a", "p", k, "weighted").alias("o"))["o"][0])
                if r is not None:
                    C.close(r, np.dot(A, w) / n, "multi:weighted", 1e-9, 1e-12)
        C.begin("no positive class gives NaN", score=s)
        r = C.call("none:call", lambda: pl.DataFrame({"y": [0] * n, "s": s}).select(pds.query_roc_auc("y", "s").alias("o"))["o"][0])
        C.ok(r is not None and math.isnan(r), "none", r, "NaN")
