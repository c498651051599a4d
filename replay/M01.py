import numpy as np, polars as pl, math
import polars_ds as pds
RULE = "label and score columns of 1..400 rows (plus replicated ones up to 300 000 rows), balanced, one-sided, perfect and inverted predictions, scores equal to the threshold; the four counts are recounted and every derived value is recomputed from them; distinct by (clause, input)"


def div(a, b):
    return a / b if b else float("nan")


def sq(x):
    return math.sqrt(x) if x >= 0 else float("nan")


def derived(tp, tn, fp, fn):
    p, n = tp + fn, fp + tn
    d = dict(tp=tp, tn=tn, fp=fp, fn=fn, tpr=div(tp, p), fpr=div(fp, n), precision=div(tp, tp + fp), false_omission_rate=div(fn, fn + tn), prevalence=div(p, p + n),
             threat_score=div(tp, tp + fn + fp), acc=div(tp + tn, p + n))
    d["fnr"], d["tnr"], d["npv"], d["fdr"] = 1 - d["tpr"], 1 - d["fpr"], 1 - d["false_omission_rate"], 1 - d["precision"]
    d["informedness"], d["markedness"] = d["tpr"] + d["tnr"] - 1, d["precision"] - d["false_omission_rate"]
    d["balanced_accuracy"] = (d["tpr"] + d["tnr"]) / 2
    d["folkes_mallows_index"] = sq(d["precision"] * d["tpr"])
    d["mcc"] = sq(d["tpr"] * d["tnr"] * d["precision"] * d["npv"]) - sq(d["fnr"] * d["fpr"] * d["false_omission_rate"] * d["fdr"])
    d["f1"] = div(2 * d["precision"] * d["tpr"], d["precision"] + d["tpr"])
    d["plr"], d["nlr"] = div(d["tpr"], d["fpr"]), div(d["fnr"], d["tnr"])
    d["dor"] = div(d["plr"], d["nlr"])
    if abs(d["tpr"] - d["fpr"]) > 1e-9:
        d["prevalence_threshold"] = div(sq(d["tpr"] * d["fpr"]) - d["fpr"], d["tpr"] - d["fpr"])
    return d


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 60000):
        it += 1
        n = int(rng.choice([1, 2, 3, 5, 20, 100, 400]))
        style = it % 6
        y = rng.random(n) < rng.choice([.1, .5, .9])
        s = rng.random(n) if style != 1 else rng.integers(0, 5, n) / 4
        th = float(rng.choice([.5, .25, .75, 0.0, 1.0]))
        if style == 2:
            s = y * .9 + .05
        if style == 3:
            s = (~y) * .9 + .05
        if style == 4:
            y = np.full(n, it % 12 < 6)
        if style == 5:
            s = np.full(n, th)
        rep = 1
        if it % 25 == 0 and n >= 20:
            rep = 300000 // n
        yy = [y, y.astype(int), y.astype(float)][it % 3]
        df = pl.DataFrame({"y": np.tile(yy, rep), "s": np.tile(s, rep)})
        pr = s > th
        tp, tn, fp, fn = int((y & pr).sum()) * rep, int((~y & ~pr).sum()) * rep, int((~y & pr).sum()) * rep, int((y & ~pr).sum()) * rep
        want = derived(tp, tn, fp, fn)
        inp = dict(y=yy, score=s, threshold=th, replicated=rep)
        C.begin("confusion counts and every derived metric", **inp)
        r = C.call("cm:call", lambda: df.select(pds.query_confusion_matrix("y", "s", th, all_metrics=True).alias("o"))["o"].struct.unnest().row(0, named=True))
        if r is not None:
            C.ok(len(r) == 25, "cm:all-metrics", len(r), 25)
            for k, v in want.items():
                g = r[k]
                if isinstance(v, float) and math.isnan(v):
                    C.ok(g is None or math.isnan(g), "cm:" + k, g, v)
                else:
                    C.close(g, v, "cm:" + k, 1e-9, 1e-12)
        r = C.call("cm4:call", lambda: df.select(pds.query_confusion_matrix("y", "s", th).alias("o"))["o"].struct.unnest().row(0, named=True))
        if r is not None:
            C.ok(r == dict(tn=tn, fp=fp, fn=fn, tp=tp), "cm4", r, dict(tn=tn, fp=fp, fn=fn, tp=tp))
        C.begin("Matthews correlation equals the correlation of the two label columns", **inp)
        r = C.call("mcc:call", lambda: df.select(pds.query_mcc(pl.col("y").cast(pl.Int64), (pl.col("s") > th).cast(pl.Int64)).alias("o"))["o"][0])
        den = math.sqrt((tp + fp) * (tp + fn) * (tn + fp) * (tn + fn))
        if r is not None:
            if den:
                C.close(r, (tp * tn - fp * fn) / den, "mcc", 1e-9, 1e-12)
            else:
                C.ok(math.isnan(r), "mcc:degenerate", r, "NaN")
        pg = s >= th
        TP, FP, P = int((y & pg).sum()), int((~y & pg).sum()), int(y.sum())
        C.begin("precision, recall and F at a threshold follow the counts of scores not below it", **inp)
        for t_ in (th, 2.0):
            if P == 0 or rep > 1:
                break
            if t_ == 2.0:
                TP = FP = 0
            r = C.call("combo:call", lambda: df.select(pds.query_binary_metrics("y", "s", t_).alias("o"))["o"].struct.unnest().row(0, named=True))
            if r is not None:
                C.close(r["recall"], TP / P, "combo:recall", 1e-9, 1e-12)
                if TP + FP:
                    C.close(r["precision"], TP / (TP + FP), "combo:precision", 1e-9, 1e-12)
                    if TP:
                        C.close(r["f"], 2 * TP / (TP + FP + P), "combo:f", 1e-9, 1e-12)
                else:
                    C.ok(math.isnan(r["precision"]) and math.isnan(r["f"]), "combo:nothing-predicted", (r["precision"], r["f"]), "NaN")
        if it % 7 == 0 and n > 3:
            lab = rng.integers(0, 3, n)
            lab[:3] = np.arange(3)
            pm = rng.integers(0, 6, (n, 3)) / 6
            C.begin("the multi-class area averages the one-versus-rest areas", labels=lab, pred=pm)
            A = [float(np.mean([(a > b) + .5 * (a == b) for a in pm[lab == i, i] for b in pm[lab != i, i]])) for i in range(3)]
            d3 = pl.DataFrame({"a": lab, "p": pm.tolist()})
            for st, w in (("macro", np.mean(A)), ("weighted", np.dot(A, [(lab == i).sum() for i in range(3)]) / n)):
                r = C.call("multi:call", lambda: d3.select(pds.query_multi_roc_auc("a", "p", 3, st).alias("o"))["o"][0])
                if r is not None:
                    C.close(r, w, "multi:" + st, 1e-9, 1e-12)
        g = rng.random(n) < .5
        d2 = pl.DataFrame({"s": s, "p": pr.astype(int), "g": g})
        C.begin("fairness metrics compare the two group means", s=s, p=pr, g=g)
        if g.any() and not g.all():
            C.close(d2.select(pds.query_fairness("s", pl.col("g")))["s"][0], abs(s[g].mean() - s[~g].mean()), "fairness", 1e-9, 1e-12)
            a, b = pr[g].mean(), pr[~g].mean()
            if a > 0 and b > 0:
                C.close(d2.select(pds.query_p_pct_score("p", pl.col("g")))["p"][0], min(a / b, b / a), "p_pct", 1e-9, 1e-12)
