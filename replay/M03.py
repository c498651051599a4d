import numpy as np, polars as pl, math
import polars_ds as pds
from polars_ds.exprs.metrics import calculate_ndcg
RULE = "actual/predicted columns of 1..200 rows over positive, signed, large and exact-match values; loss formulas recomputed in numpy; distinct by (clause, input)"


def ndcg(groups, k, ties):
    out = []
    for rel, sc in groups:
        n = len(rel)
        if n == 1:
            continue
        disc = np.array([1 / math.log2(i + 2) if not k or i < k else 0.0 for i in range(n)])
        ideal = (np.sort(rel)[::-1] * disc).sum()
        o = np.argsort(-sc, kind="stable")
        if ties:
            d = 0.0
            i = 0
            ss, rr = sc[o], rel[o]
            while i < n:
                j = i
                while j < n and ss[j] == ss[i]:
                    j += 1
                d += rr[i:j].mean() * disc[i:j].sum()
                i = j
        else:
            d = (rel[o] * disc).sum()
        out.append(d / ideal if ideal > 0 else 0.0)
    return np.mean(out) if out else None


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 80000):
        it += 1
        n = int(rng.choice([1, 2, 3, 10, 200]))
        k = it % 4
        a = rng.normal(size=n) * 3 if k < 2 else rng.random(n) * 10 + .1
        p = a + rng.normal(size=n) * rng.choice([0.0, .5, 4])
        if k >= 2:
            p = np.abs(p) + .01
        if k == 3:
            a, p = np.round(a), np.round(p)
        df = pl.DataFrame({"a": a, "p": p})
        f = lambda e: df.select(e.alias("o"))["o"][0]
        d = a - p
        C.begin("regression losses equal their formulas", actual=a, pred=p)
        W = {"l1": (pds.query_l1("a", "p"), np.abs(d).mean()), "l1_sum": (pds.query_l1("a", "p", normalize=False), np.abs(d).sum()),
             "l2": (pds.query_l2("a", "p"), (d * d).mean()), "l2_sum": (pds.query_l2("a", "p", normalize=False), (d * d).sum()),
             "l_inf": (pds.query_l_inf("a", "p"), np.abs(d).max()), "log_cosh": (pds.query_log_cosh("a", "p"), np.log(np.cosh(d)).mean()),
             "log_cosh_sum": (pds.query_log_cosh("a", "p", normalize=False), np.log(np.cosh(d)).sum()),
             "mad": (pds.query_mad("a"), np.abs(a - a.mean()).mean()), "mad_median": (pds.query_mad("a", use_mean=False), np.median(np.abs(a - np.median(a))))}
        for dl in (.5, 1.0, 2.5):
            W[f"huber{dl}"] = (pds.query_hubor_loss("a", "p", dl), np.where(np.abs(d) <= dl, .5 * d * d, dl * (np.abs(d) - .5 * dl)).mean())
        st = ((a - a.mean()) ** 2).sum()
        if st > 1e-9:
            W["r2"] = (pds.query_r2("a", "p"), 1 - (d * d).sum() / st)
            if n > 3:
                W["adj_r2"] = (pds.query_adj_r2("a", "p", 2), 1 - ((d * d).sum() / (n - 2)) / (st / (n - 1)))
        if np.all(a != 0):
            W["mape"] = (pds.query_mape("a", "p"), np.abs(1 - p / a).mean())
        if np.any(a != 0):
            W["wmape"] = (pds.query_mape("a", "p", weighted=True), np.abs(d).sum() / np.abs(a).sum())
        if np.all(np.abs(a) + np.abs(p) > 0):
            W["smape"] = (pds.query_smape("a", "p"), (np.abs(d) / (np.abs(a) + np.abs(p))).mean())
        if k >= 2:
            dl = np.log1p(a) - np.log1p(p)
            W["msle"] = (pds.query_msle("a", "p"), (dl * dl).mean())
            W["msle_sum"] = (pds.query_msle("a", "p", normalize=False), (dl * dl).sum())
        W["mase_f"] = (pds.query_mase("a", "p", 2.0), np.abs(d).mean() / 2.0)
        W["mase_fmed"] = (pds.query_mase("a", "p", 2.0, use_mean=False), np.median(np.abs(d)) / 2.0)
        fr = int(rng.integers(1, 4))
        if n > 5:
            dn = np.abs(a[fr:] - a[:-fr])
            if dn.mean() > 1e-9:
                W["mase"] = (pds.query_mase("a", "p", "a", freq=fr), np.abs(d).mean() / dn.mean())
            if np.median(dn) > 1e-9:
                W["mase_med"] = (pds.query_mase("a", "p", "a", freq=fr, use_mean=False), np.median(np.abs(d)) / np.median(dn))
        for nm, (e, w) in W.items():
            r = C.call(nm + ":call", lambda: f(e))
            if r is not None:
                C.close(r, w, nm, 1e-8, 1e-9)
        y = (rng.random(n) < .5).astype(int)
        q = rng.uniform(.01, .99, n)
        if it % 7 == 0:
            q = np.where(rng.random(n) < .4, y, q)  # certain and right: the 0 * log 0 terms
        C.begin("log loss and cross entropy equal their formulas", actual=y, pred=q)
        with np.errstate(all="ignore"):
            ll = -(np.where(y == 1, np.log(q), 0) + np.where(y == 0, np.log(1 - q), 0))
        d2 = pl.DataFrame({"y": y, "q": q})
        C.close(d2.select(pds.query_log_loss("y", "q").alias("o"))["o"][0], ll.mean(), "log_loss", 1e-8, 1e-9)
        C.close(d2.select(pds.query_log_loss("y", "q", normalize=False).alias("o"))["o"][0], ll.sum(), "log_loss_sum", 1e-8, 1e-9)
        m = int(rng.integers(2, 5))
        Q = rng.dirichlet(np.ones(m), n) * .99 + .001
        lab = rng.integers(0, m, n)
        d3 = pl.DataFrame({"y": lab, "q": Q.tolist(), "yl": np.eye(m, dtype=int)[lab].tolist()})
        ce = -np.log(Q[np.arange(n), lab])
        C.begin("categorical cross entropy equals its formula", labels=lab, pred=Q)
        for nm, e, w in (("dense", pds.query_cat_cross_entropy("y", "q"), ce.mean()), ("dense_sum", pds.query_cat_cross_entropy("y", "q", normalize=False), ce.sum()),
                         ("onehot", pds.query_cat_cross_entropy("yl", "q", dense=False), ce.mean())):
            r = C.call("cce:" + nm + ":call", lambda: d3.select(e.alias("o"))["o"][0])
            if r is not None:
                C.close(r, w, "cce:" + nm, 1e-8, 1e-9)
        if it % 6 == 0:
            gs, rows = [], []
            for g in range(int(rng.integers(1, 6))):
                m = int(rng.choice([1, 2, 3, 6, 10]))
                rel = rng.integers(0, 4, m).astype(float)
                sc = rng.permutation(m) * 1.0
                tie = rng.integers(0, 3, m) * 1.0
                gs.append((rel, sc, tie))
                rows += [(g, x, s, t) for x, s, t in zip(rel, sc, tie)]
            d4 = pl.DataFrame(rows, schema=["example_id", "rel", "score", "tie"], orient="row")
            for gc in ("example_id", "query_id"):
                d5 = d4.rename({"example_id": gc})
                for kk in (None, 1, 3):
                    C.begin("NDCG is the mean over groups of discounted gain over ideal gain", df=d5, group=gc, k=kk)
                    for nm, col, ties in (("plain", "score", False), ("ties", "tie", True), ("ties-distinct", "score", True)):
                        r = C.call("ndcg:" + gc + ":call", lambda: calculate_ndcg(d5, "rel", col, gc, k=kk, ignore_ties=ties)["ndcg"][0])
                        w = ndcg([(x, t if col == "tie" else s) for x, s, t in gs], kk, ties)
                        if C.failures and C.failures[-1]["key"] == "ndcg:" + gc + ":call":
                            continue
                        C.close(r, w, "ndcg:" + nm, 1e-8, 1e-9)
