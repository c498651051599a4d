import numpy as np, polars as pl, math
from collections import Counter
from itertools import combinations
from polars_ds.eda.diagnosis import DIA
from common import allclose
RULE = "frames of 2..60 rows with float, integer, string, boolean and list columns, missing and non-finite entries, constant and binary columns; oracle: counts and formulas over plain lists; distinct by (clause, input)"


def isnan(v):
    return isinstance(v, float) and math.isnan(v)


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (1500 if not C.thorough else 40000):
        it += 1
        n = int(rng.integers(2, 60))

        def miss(v, p=None):
            p = rng.choice([0, .1, .5]) if p is None else p
            return [None if rng.random() < p else q for q in v]
        f = miss([float(v) for v in rng.normal(0, 1, n).round(2)])
        for i in range(n):
            r = rng.random()
            if r < .1:
                f[i] = float(["nan", "inf", "-inf"][int(r * 30)])
        pr = [list(map(float, rng.dirichlet(np.ones(3)))) for _ in range(n)]
        if it % 3 == 0:
            pr[int(rng.integers(n))] = [.2, .2, .2] if it % 2 else [1.5, -.5, 0.]
        df = pl.DataFrame({"f": f, "g": miss(rng.random(n).tolist(), 0 if it % 2 else .1), "i": miss(rng.integers(0, int(rng.integers(1, 30)), n).tolist()), "j": miss([7] * n), "s": miss(rng.choice(["x", "yé", "", "zzz"], n).tolist()),
                           "k": miss(rng.choice(["p", "q"], n).tolist()), "b": miss([bool(v) for v in rng.random(n) < .5]), "l": pr},
                          schema={"f": pl.Float64, "g": pl.Float64, "i": pl.Int64, "j": pl.Int32, "s": pl.String, "k": pl.String, "b": pl.Boolean, "l": pl.List(pl.Float64)})
        L = {c: df[c].to_list() for c in df.columns}
        D = C.call("dia:call", DIA, df.lazy() if it % 2 else df)
        if D is None:
            continue
        C.begin("special values are counted per numeric column", frame=df)
        r = C.call("special:call", D.special_values_report)
        if r is not None:
            want = []
            for c in "fgij":
                a, b, d = sum(v is None for v in L[c]), sum(isnan(v) for v in L[c]), sum(isinstance(v, float) and math.isinf(v) for v in L[c])
                want.append((c, a, a / n, b, b / n, d, d / n))
            C.ok(all(g[0] == w[0] and np.allclose(g[1:], w[1:]) for g, w in zip(r.rows(), want)) and len(r) == 4, "special", r.rows(), want)
        C.begin("rule violations are reported for exactly the rows and columns that break a rule", frame=df)
        r = C.call("row:call", D.row_validation, (pl.col("i") > 3, "small i"), (pl.col("s") != "", "empty s"), (pl.col("b"), "not b"), columns_to_keep=["f"], all_reasons=True)
        full = df.drop_nulls(["i", "s", "b"])
        if r is not None and len(full):
            D2 = DIA(full)
            rules = [(pl.col("i") > 3, "small i"), (pl.col("s") != "", "empty s"), (pl.col("b"), "not b")]
            bad = [[m for m, ok in (("small i", i > 3), ("empty s", s != ""), ("not b", b)) if not ok] for i, s, b in zip(full["i"], full["s"], full["b"])]
            want = [(q, v, sorted(m)) for q, (v, m) in enumerate(zip(full["f"].to_list(), bad)) if m]
            a = D2.row_validation(*rules, columns_to_keep=["f"], all_reasons=True)
            C.ok(a.columns == ["__index__", "f", "__reason__"] and [str(x) for x in a.rows()] == [str(x) for x in want], "row:all", a.rows(), want)
            a = D2.row_validation(*rules)
            got = {q: m for q, m in a.rows()}
            C.ok(set(got) == {w[0] for w in want} and all(got[w[0]] in w[2] for w in want), "row:one", got, want)
            a = D2.row_validation(*rules, id_col="s")
            C.ok(a["s"].to_list() == [full["s"][w[0]] for w in want], "row:id", a["s"].to_list(), want)
        C.raises("row:dup", D.row_validation, (pl.col("i") > 3, "a"), (pl.col("b"), "a"))
        r = C.call("col:call", D.col_validation, (pl.col("i").null_count() == 0, "nulls"), (pl.col("s").n_unique() > 2, "few"), (pl.col("g").max() <= 1, "big"))
        if r is not None:
            want = [("i", "nulls")] * (None in L["i"]) + [("s", "few")] * (len(set(L["s"])) <= 2)
            C.ok(r.rows() == want, "col", r.rows(), want)
        C.raises("col:rows", D.col_validation, (pl.col("i") > 3, "rows"))
        C.begin("null correlation correlates the null indicators", frame=df)
        r = C.call("null:call", D.null_corr)
        if r is not None:
            want = {}
            for x, y in combinations(df.columns, 2):
                a, b = np.array([v is None for v in L[x]], float), np.array([v is None for v in L[y]], float)
                if 0 < a.sum() < n and 0 < b.sum() < n:
                    want[x, y] = np.corrcoef(a, b)[0, 1]
            got = {(x, y): v for x, y, v in r.rows()}
            C.ok(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 for k in want), "null", str(got), str(want))
            v = [abs(q) for q in r["null_corr"].to_list()]
            C.ok(all(p >= q - 1e-12 for p, q in zip(v, v[1:])), "null:sorted", v)
        if any(v is not None for v in L["b"]) and sum(v is True for v in L["b"]) > 1:
            r = C.call("null:call", D.null_corr, ["f", "s"], pl.col("b"))
            if r is not None:
                sub = df.filter(pl.col("b"))
                a, b = sub["f"].is_null().to_numpy().astype(float), sub["s"].is_null().to_numpy().astype(float)
                ok = 0 < a.sum() < len(sub) and 0 < b.sum() < len(sub)
                C.ok(len(r) == int(ok) and (not ok or abs(r["null_corr"][0] - np.corrcoef(a, b)[0, 1]) < 1e-9), "null:filter", r.rows(), ok)
        C.begin("inference lists exactly the columns with the property", frame=df)
        simple = df.drop("l")
        S = DIA(simple.lazy() if it % 2 else simple)
        nu = {c: len(set("nan" if isnan(v) else v for v in L[c])) for c in simple.columns}
        nn = {c: nu[c] - (None in L[c]) for c in simple.columns}
        k = int(rng.integers(1, 6))
        for key, call, want in (
            ("const", lambda: S.infer_const(), [c for c in nu if nu[c] == 1]), ("const:null", lambda: S.infer_const(include_null=True), [c for c in nu if nu[c] == 1 or (None in L[c] and nn[c] == 1)]),
            ("binary", lambda: S.infer_binary(), [c for c in nu if nu[c] == 2]), ("binary:null", lambda: S.infer_binary(include_null=True), [c for c in nu if nu[c] == 2 or (None in L[c] and nn[c] == 2)]),
            ("k", lambda: S.infer_k_distinct(k), [c for c in nu if nu[c] == k]), ("k:null", lambda: S.infer_k_distinct(k, include_null=True), [c for c in nu if nu[c] == k or (None in L[c] and nn[c] == k)]),
            ("high", lambda: S.infer_high_null(.25), [c for c in nu if sum(v is None for v in L[c]) >= .25 * n]),
        ):
            r = C.call("infer:" + key + ":call", call)
            if r is not None:
                C.ok(sorted(r) == sorted(want), "infer:" + key, r, want)
        if it % 3 == 0:
            pr = [[[.5, .5], [.25, .75]], [[.5, .5], [.2, .3, .5]], [[1.0], [1.0]], [[.5, .6], [.5, .5]], [[-.5, 1.5], [.5, .5]], [[.2, .3, .5], [.1, .1, .8]], [[.5, .5], [1.0]], [[.5, .5], [.5, .6]], [[.5, .5], [-.5, 1.5]], [[.5, .5], [.25, .25]]]
            C.begin("class-probability columns have non-negative entries, sum one and one length", lists=pr)
            dl = pl.DataFrame({f"p{i}": p * 3 for i, p in enumerate(pr)})
            r = C.call("infer:prob:lists", DIA(dl if it % 2 else dl.lazy()).infer_prob)
            if r is not None:
                C.ok(sorted(r) == [f"p{i}" for i, p in enumerate(pr) if len({len(q) for q in p}) == 1 and all(min(q) >= 0 and abs(sum(q) - 1) < 1e-6 for q in p)], "infer:prob:lists", r)
        C.raises("infer:k:bad", S.infer_k_distinct, 0)
        r = C.call("infer:discrete:call", lambda: S.infer_discrete(.3, 5))
        if r is not None:
            want = [c for c in nu if c == "b" or nu[c] < 5 or nu[c] < .3 * n]
            C.ok(sorted(r) == sorted(want), "infer:discrete", r, want)
        r = C.call("infer:prob:call", D.infer_prob)
        if r is not None:
            want = [c for c in "fg" if all(v is None or 0 <= v <= 1 for v in L[c])] + ["l"] * all(min(v) >= 0 and abs(sum(v) - 1) < 1e-6 for v in L["l"])
            C.ok(sorted(r) == sorted(want), "infer:prob", r, want)
        C.begin("string statistics", frame=df)
        r = C.call("str:call", D.str_stats)
        if r is not None:
            for row in r.rows(named=True):
                v = [q for q in L[row["column"]] if q is not None]
                if not v:
                    continue
                by, ch = [len(q.encode()) for q in v], [len(q) for q in v]
                cnt = Counter(L[row["column"]])
                C.ok(row["null_count"] == n - len(v) and row["n_unique"] == len(set(L[row["column"]])) and row["most_freq_cnt"] == max(cnt.values()) and cnt[row["most_freq"]] == max(cnt.values())
                     and (row["min_byte_len"], row["max_byte_len"], row["min_char_len"], row["max_char_len"]) == (min(by), max(by), min(ch), max(ch))
                     and abs(row["avg_byte_len"] - np.mean(by)) < 1e-9 and abs(row["avg_char_len"] - np.mean(ch)) < 1e-9, "str", row, str(cnt))
        C.begin("conditional entropy finds functional dependencies", frame=df)
        d2 = pl.DataFrame({"a": rng.integers(0, 4, n), "c": [str(v) for v in rng.integers(0, 3, n)]}).with_columns(e=(pl.col("a") % 2))
        if min(d2[c].n_unique() for c in d2.columns) > 1:
            r = C.call("dep:call", DIA(d2).infer_dependency)
            if r is not None:
                nun = {c: d2[c].n_unique() for c in d2.columns}
                ok = len(r) == 3
                for x, y, h in r.rows():
                    cy = Counter(d2[y].to_list())
                    cxy = Counter(zip(d2[x].to_list(), d2[y].to_list()))
                    want = -sum(v / n * math.log(v / cy[q]) for (_, q), v in cxy.items())
                    ok = ok and abs(h - want) < 1e-9 and nun[x] <= nun[y]
                C.ok(ok, "dep", r.rows(), "H(column | by)")
