import numpy as np, polars as pl, math
from collections import Counter
from polars_ds.modeling import transforms as T
from common import allclose
RULE = "random frames with numeric, constant, string, categorical and missing values; every transform is applied to the frame it learned from and to unseen frames with new categories; oracle: the definition evaluated in Python/numpy on plain lists; distinct by (clause, input)"


def cats(rng, n, k, miss=.15):
    p = rng.dirichlet(np.ones(k))
    return [None if rng.random() < miss else "abcdefgh"[i] * int(1 + i % 2) for i in rng.choice(k, n, p=p)]


def nums(rng, n, miss=.15, kind=0):
    v = [rng.normal(3, 2, n).round(3), rng.integers(-20, 20, n) * 1., np.exp(rng.normal(0, 2, n)), rng.integers(0, 3, n) * 1.][kind]
    return [None if rng.random() < miss else float(x) for x in v]


def quant(v, q, method):
    """quantile of a list by its definition on the sorted values"""
    v = sorted(v)
    h = q * (len(v) - 1)
    lo, hi = math.floor(h), math.ceil(h)
    if method == "lower":
        return v[lo]
    if method == "higher":
        return v[hi]
    if method == "midpoint":
        return (v[lo] + v[hi]) / 2
    if method == "nearest":
        return None if abs(h - lo - .5) < 1e-9 else v[round(h)]
    return v[lo] + (v[hi] - v[lo]) * (h - lo)


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (2000 if not C.thorough else 50000):
        it += 1
        n = int(rng.integers(8, 80))
        tr = pl.DataFrame({"x": nums(rng, n, kind=it % 4), "y": nums(rng, n, kind=(it // 4) % 4), "z": nums(rng, n, 0, (it + 1) % 3), "s": cats(rng, n, int(rng.integers(2, 6))), "c": cats(rng, n, 3), "t": rng.permutation(np.r_[[0, 1], rng.integers(0, 2, n - 2)])},
                          schema={"x": pl.Float64, "y": pl.Float64, "z": pl.Float64, "s": pl.String, "c": pl.Categorical, "t": pl.Int64})
        m = int(rng.integers(1, 20))
        un = pl.DataFrame({"x": nums(rng, m), "y": nums(rng, m), "z": nums(rng, m, 0), "s": cats(rng, m, 7), "c": cats(rng, m, 3), "t": rng.integers(0, 2, m)}, schema=tr.schema)
        if tr["x"].null_count() > n - 3 or tr["y"].null_count() > n - 3 or min(tr["s"].drop_nulls().n_unique(), tr["c"].drop_nulls().n_unique()) < 2:
            continue
        V = {c: tr[c].drop_nulls().to_list() for c in "xyz"}
        src = tr.lazy() if it % 2 else tr

        def app(key, ex, frame, want, rtol=1e-9, atol=1e-9):
            """ex: expressions; want: {name: list}; every other column is unchanged"""
            r = C.call(key + ":call", lambda: frame.with_columns(ex))
            if r is None:
                return
            for c, w in want.items():
                C.ok(c in r.columns and allclose(r[c], w, rtol, atol), key, r[c].to_list() if c in r.columns else r.columns, w)
            C.ok(r.drop([c for c in want]).equals(frame.drop([c for c in want if c in frame.columns])), key + ":others")

        # ---- imputation
        C.begin("imputation fills the missing values with the learned statistic", train=tr, unseen=un)
        for meth in ("mean", "median"):
            f = {"mean": np.mean, "median": np.median}[meth]
            ex = C.call("impute:call", T.impute, src, ["x", "y"], method=meth)
            if ex is not None:
                for d in (tr, un):
                    app("impute:" + meth, ex, d, {c: [float(f(V[c])) if v is None else v for v in d[c].to_list()] for c in "xy"})
            thr = float(np.median(V["z"]))
            if any(v <= thr for v in V["z"]):
                ex = C.call("cond:call", T.conditional_impute, src, {"z": f"z > {thr!r}" if it % 3 else pl.col("z") > thr}, method=meth)
                if ex is not None:
                    s = float(f([v for v in V["z"] if v <= thr]))
                    for d in (tr, un):
                        app("cond:" + meth, ex, d, {"z": [s if v > thr else v for v in d["z"].to_list()]})
            # a rule that cannot be decided on some rows: they are neither replaced nor learned from
            pairs = [(a, b) for a, b in zip(tr["x"].to_list(), tr["y"].to_list()) if b is not None]
            thy = float(np.median([b for _, b in pairs])) if pairs else 0.0
            keep = [a for a, b in pairs if b <= thy and a is not None]
            if keep:
                ex = C.call("cond:call", T.conditional_impute, src, {"x": pl.col("y") > thy}, method=meth)
                if ex is not None:
                    for d in (tr, un):
                        app("cond:undecided:" + meth, ex, d, {"x": [float(f(keep)) if b is not None and b > thy else a for a, b in zip(d["x"].to_list(), d["y"].to_list())]})
        for c in ("s", "c", "x"):
            cnt = Counter(v for v in tr[c].to_list() if v is not None)
            top = [v for v, k in cnt.items() if k == max(cnt.values())]
            ex = C.call("mode:call", T.impute, src, [c], method="mode")
            if ex is not None and len(top) == 1:
                d = un if c != "c" else tr
                app("impute:mode", ex, d, {c: [top[0] if v is None else v for v in d[c].to_list()]})
        C.raises("impute:unknown", T.impute, src, ["x"], method="max")
        # ---- linear imputation
        C.begin("linear imputation fills with the least squares prediction", train=tr, unseen=un)
        for bias in (True, False):
            rows = [(a, b, c) for a, b, c in zip(*(tr[k].to_list() for k in "xyz")) if None not in (a, b)]
            A = np.array([[r[0], r[2]] + [1.] * bias for r in rows]).reshape(len(rows), 2 + bias)
            b = np.array([r[1] for r in rows])
            if len(rows) > 6 and np.linalg.matrix_rank(A) == A.shape[1] and np.linalg.cond(A) < 1e4:
                w = np.linalg.lstsq(A, b, rcond=None)[0]
                d = un.with_columns(pl.col("x").fill_null(1.5))
                ex = C.call("linear:call", T.linear_impute, src, ["x", "z"], "y" if it % 2 else pl.col("y"), add_bias=bias)
                if ex is not None:
                    want = [v if v is not None else w[0] * p + w[1] * q + (w[2] if bias else 0.) for v, p, q in zip(d["y"].to_list(), d["x"].to_list(), d["z"].to_list())]
                    app("linear", ex, d, {"y": want}, 1e-6, 1e-6)
        # ---- scaling
        C.begin("scaling uses the statistics of the training data", train=tr, unseen=un)
        exs = {"standard": lambda c, v: (v - np.mean(V[c])) / np.std(V[c]), "min_max": lambda c, v: (v - min(V[c])) / (max(V[c]) - min(V[c])), "abs_max": lambda c, v: v / max(abs(q) for q in V[c])}
        for meth, f in exs.items():
            cs = [c for c in "xyz" if len(set(V[c])) > 1]
            ex = C.call("scale:call", T.scale, src, cs, method=meth)
            if ex is not None:
                for d in (tr, un):
                    app("scale:" + meth, ex, d, {c: [None if v is None else float(f(c, v)) for v in d[c].to_list()] for c in cs})
        ex = C.call("center:call", T.center, src, ["x", "z"])
        if ex is not None:
            for d in (tr, un):
                app("center", ex, d, {c: [None if v is None else v - float(np.mean(V[c])) for v in d[c].to_list()] for c in "xz"})
        C.raises("scale:unknown", T.scale, src, ["x"], method="max")
        C.begin("robust scaling and winsorizing use the quantiles of the training data", train=tr, unseen=un)
        ql, qh = sorted(rng.choice(np.arange(0, 21), 2, replace=False) / 20)
        ql, qh = float(ql), float(qh)
        for meth in ("nearest", "higher", "lower", "midpoint", "linear"):
            q = {c: (quant(V[c], ql, meth), quant(V[c], qh, meth)) for c in "xy"}
            # (a quantile halfway between two ranks may round either way)
            cs = [c for c in "xy" if None not in q[c] and not any(abs(p * (len(V[c]) - 1) % 1 - .0) < 1e-6 and abs(p * (len(V[c]) - 1)) % 1 != 0 or 1 - p * (len(V[c]) - 1) % 1 < 1e-6 for p in (ql, qh))]
            if not cs:
                continue
            ex = C.call("winsor:call", T.winsorize, src, cs, ql, qh, method=meth)
            if ex is not None:
                for d in (tr, un):
                    app("winsor:" + meth, ex, d, {c: [None if v is None else min(max(v, q[c][0]), q[c][1]) for v in d[c].to_list()] for c in cs})
            cs = [c for c in cs if q[c][1] > q[c][0]]
            if cs:
                ex = C.call("robust:call", T.robust_scale, src, cs, ql, qh, method=meth)
                if ex is not None:
                    for d in (tr, un):
                        app("robust:" + meth, ex, d, {c: [None if v is None else (v - q[c][0]) / (q[c][1] - q[c][0]) for v in d[c].to_list()] for c in cs})
        for a, b in ((.5, .5), (.7, .2), (-.1, .5), (.5, 1.1)):
            C.raises("robust:range", T.robust_scale, src, ["x"], a, b)
            C.raises("winsor:range", T.winsorize, src, ["x"], a, b)
        # ---- encoders
        C.begin("one-hot encoding has one indicator per learned category", train=tr, unseen=un)
        drop, sep = bool(it % 2), ["_", "::"][it // 2 % 2]
        ex = C.call("onehot:call", T.one_hot_encode, src, ["s", "c"], separator=sep, drop_first=drop)
        if ex is not None:
            for d in (tr, un):
                want = {}
                for c in ("s", "c"):
                    for u in sorted(set(tr[c].to_list()) - {None})[int(drop):]:
                        want[c + sep + u] = [int(v == u) for v in d[c].to_list()]
                C.ok([e.meta.output_name() for e in ex] == list(want), "onehot:names", [e.meta.output_name() for e in ex], list(want))
                app("onehot", ex, d, want)
        C.raises("onehot:none", T.one_hot_encode, src, ["x"])
        C.begin("rank-hot encoding marks the ranks reached", train=tr, unseen=un)
        ranking = list(rng.permutation(sorted(set(tr["s"].to_list()) - {None})))
        ranking = [str(r) for r in ranking[:int(rng.integers(2, len(ranking) + 1))]]
        for d in (tr, un):
            want = {f"s>={r}": [(-1 if v not in ranking else int(ranking.index(v) >= i)) for v in d["s"].to_list()] for i, r in enumerate(ranking) if i}
            app("rankhot", T.rank_hot_encode("s", ranking), d, want)
        C.raises("rankhot:one", T.rank_hot_encode, "s", ["a"])
        C.begin("target, WOE and IV encoders map each category to its learned value", train=tr, unseen=un)
        t = tr["t"].to_list()
        n1, n0 = sum(t), n - sum(t)
        leaf, smooth = int(rng.integers(1, 30)), float(rng.uniform(.5, 20))
        for c in ("s", "c"):
            dflt = ["null", "zero", "mean", None, 2.5][int(rng.integers(5))]
            dv = {"null": None, "zero": 0., "mean": n1 / n, None: None, 2.5: 2.5}[dflt]
            g = {}
            for v, y in zip(tr[c].to_list(), t):
                if v is not None:
                    g.setdefault(v, []).append(y)
            N1 = sum(sum(v) for v in g.values())
            N0 = sum(len(v) for v in g.values()) - N1
            prior = n1 / n
            te = {}
            for v, ys in g.items():
                a = 1 / (1 + math.exp(-(len(ys) - leaf) / smooth))
                te[v] = a * np.mean(ys) + (1 - a) * prior
            woe, iv = {}, {}
            for v, ys in g.items():
                ev, ne = sum(ys) + 1, len(ys) - sum(ys) + 1
                e, f = ev / (N1 + 2), ne / (N0 + 2)
                woe[v] = math.log(e / f)
                iv[v] = (e - f) * woe[v]
            # single appearances and a total of the null category are F03's concern
            for name, enc, mp in (("target", lambda: T.target_encode(src, [c], "t", leaf, smooth, default=dflt), te), ("woe", lambda: T.woe_encode(src, [c], "t", default=dflt), woe), ("iv", lambda: T.iv_encode(src, [c], "t", default=dflt), iv)):
                ex = C.call(name + ":call", enc)
                if ex is not None:
                    for d in (tr, un) if c == "s" else (tr,):
                        app("enc:" + name, ex, d, {c: [mp.get(v, dv) if v is not None else dv for v in d[c].to_list()]}, 1e-8, 1e-8)
        C.raises("enc:none", T.target_encode, src, ["x"], "t")
        C.raises("enc:default", T.woe_encode, src, ["s"], "t", default="max")
        C.begin("polynomial features are the products of all combinations", train=tr)
        from itertools import combinations_with_replacement as cwr
        deg, inter = int(rng.integers(2, 4)), bool(rng.integers(2))
        want = {}
        for comb in cwr("xyz", deg):
            if not inter or len(set(comb)) > 1:
                want["*".join(comb)] = [None if None in r else math.prod(r) for r in zip(*(tr[c].to_list() for c in comb))]
        ex = T.polynomial_features(["x", "y", "z"], degree=deg, interaction_only=inter)
        C.ok([e.meta.output_name() for e in ex] == list(want), "poly:names", [e.meta.output_name() for e in ex], list(want))
        app("poly", ex, tr, want)
        C.raises("poly:degree", T.polynomial_features, ["x"], degree=1)
