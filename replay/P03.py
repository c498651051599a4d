import numpy as np, polars as pl, math
from collections import Counter
from polars_ds.sample_and_split import sample, volume_neutral, downsample, random_cols, split_by_ratio
from polars_ds.partition import PartitionHelper
RULE = "frames of 0..300 rows with a unique row id, eager and lazy, random rates, counts, ratios and seeds; checked: which rows come back, how many, the same ones for the same seed; distinct by (clause, input)"


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (2500 if not C.thorough else 60000):
        it += 1
        n = int(rng.choice([1, 2, 3, 10, 50, 300]))
        seed = int(rng.integers(0, 2 ** 40))
        df = pl.DataFrame({"id": np.arange(n), "g": [None if rng.random() < .1 else "abc"[i] for i in rng.integers(0, 3, n)], "h": rng.choice(["u", "v"], n), "b": [bool(v) for v in rng.random(n) < .6], "w": rng.normal(0, 1, n)}, schema={"id": pl.Int64, "g": pl.String, "h": pl.String, "b": pl.Boolean, "w": pl.Float64})
        src = df.lazy() if it % 2 else df

        def rows(key, r, ordered=True):
            """a result made of distinct whole rows of df (in the original order)"""
            ids = r["id"].to_list()
            ok = r.columns == df.columns and len(set(ids)) == len(ids) and all(0 <= i < n for i in ids) and r.equals(df[ids]) and (not ordered or ids == sorted(ids))
            C.ok(ok, key + ":rows", r, "distinct rows of the frame")
            return ids

        C.begin("sampling returns the number of distinct rows asked for", n=n, seed=seed)
        k = int(rng.integers(1, n + 3))
        r = C.call("sample:call", sample, src, k, seed=seed)
        if r is not None:
            ids = rows("sample:n", r)
            C.ok(len(ids) == min(k, n), "sample:n:len", len(ids), min(k, n))
            C.ok(sample(src, k, seed=seed).equals(r), "sample:seed")
        p = float(rng.integers(1, 20) / 20)
        r = C.call("sample:call", sample, src, p, seed=seed)
        if r is not None:
            C.ok(abs(len(rows("sample:p", r)) - n * p) < 1 and len(r) <= n * p + 1e-9, "sample:p:len", len(r), n * p)
        for bad in (0, -1, 0., 1., 1.5, -.2, "a"):
            C.raises("sample:bad", sample, src, bad)
        if n == 300:
            C.ok(sample(src, 100, seed=1)["id"].to_list() != sample(src, 100, seed=2)["id"].to_list(), "sample:seeds")
        C.begin("volume neutral selection takes the same number from every segment", frame=df, seed=seed)
        tv = [None, int(rng.integers(1, 20))][int(rng.integers(2))]
        r = C.call("vn:call", volume_neutral, src, pl.col("g"), target_volume=tv, seed=seed)
        if r is not None:
            rows("vn", r)
            cnt = Counter(df["g"].to_list())
            t = min(list(cnt.values()) + ([tv] if tv else []))
            C.ok(Counter(r["g"].to_list()) == {g: t for g in cnt}, "vn:count", dict(Counter(map(str, r["g"].to_list()))), t)
            C.ok(volume_neutral(src, pl.col("g"), target_volume=tv, seed=seed).equals(r), "vn:seed")
        ctrl = pl.col("h") if it % 3 else [pl.col("h"), pl.col("b")]
        r = C.call("vn:call", volume_neutral, src, pl.col("g"), control=ctrl, target_volume=tv, seed=seed)
        if r is not None:
            rows("vn:control", r)
            key = (lambda d: [(h,) for h in d["h"].to_list()]) if it % 3 else (lambda d: list(zip(d["h"].to_list(), d["b"].to_list())))
            cnt = Counter(zip(key(df), df["g"].to_list()))
            want = {}
            for (h, g) in cnt:
                want[h, g] = min([v for (hh, _), v in cnt.items() if hh == h] + ([tv] if tv else []))
            C.ok(dict(Counter(zip(key(r), r["g"].to_list()))) == want, "vn:control:count", str(Counter(zip(key(r), r["g"].to_list()))), str(want))
        C.begin("downsampling thins out exactly the rows under the condition", frame=df, seed=seed, p=p, k=k)
        sub = [i for i, g in enumerate(df["g"].to_list()) if g == "a"]
        for val in (p, k):
            r = C.call("down:call", downsample, src, (pl.col("g") == "a", val), seed=seed)
            if r is not None:
                ids = rows("down", r)
                C.ok([i for i in ids if i not in set(sub)] == [i for i in range(n) if i not in set(sub)], "down:others", ids, "all rows outside the condition")
                got = len(set(ids) & set(sub))
                C.ok(got == min(k, len(sub)) if val is k else (abs(got - p * len(sub)) < 1 and got <= p * len(sub) + 1e-9), "down:len", got, val)
        r = C.call("down:call", downsample, src, (pl.col("g") == "a", p), (pl.col("g") == "b", k), seed=seed)
        if r is not None:
            c0, c1 = Counter(df["g"].to_list()), Counter(r["g"].to_list())
            C.ok(c1["b"] == min(k, c0["b"]) and c1["c"] == c0["c"] and c1[None] == c0[None] and abs(c1["a"] - p * c0["a"]) < 1, "down:two", str(c1), str(c0))
        C.begin("a split is a partition of the rows by the ratios", n=n, seed=seed)
        if C.rng.random() < .5:
            ratio = float(rng.integers(1, 20) / 20)
            rs = [ratio, 1 - ratio]
        else:
            kk = int(rng.integers(2, 6))
            w = rng.multinomial(20, np.ones(kk) / kk)
            ratio = rs = [float(v / 20) for v in w]
        parts = C.call("split:call", split_by_ratio, src, ratio, seed=seed)
        if parts is not None:
            C.ok(len(parts) == len(rs) and all(q.columns == df.columns for q in parts), "split:parts", len(parts), len(rs))
            allids = [i for q in parts for i in rows("split", q, False)]
            C.ok(sorted(allids) == list(range(n)), "split:partition", sorted(allids), n)
            for i, (q, v) in enumerate(zip(parts, rs)):
                C.ok(abs(len(q) - n * v) < (1 + 1e-6 if i + 1 < len(rs) else len(rs)), "split:len", len(q), n * v)
            again = split_by_ratio(src, ratio, seed=seed)
            C.ok(all(a.equals(b) for a, b in zip(parts, again)), "split:seed")
        one = split_by_ratio(src, [v0 := float(rng.integers(1, 20) / 20)], seed=seed)
        C.ok(len(one) == 2 and sorted(i for q in one for i in rows("split:single", q, False)) == list(range(n)) and abs(len(one[0]) - n * v0) < 1 + 1e-6, "split:single", [len(q) for q in one], [n * v0])
        for bad in (0., 1., -.5, [.5, .4], [.5, .5, .5]):
            C.raises("split:bad", split_by_ratio, src, bad)
        C.begin("random columns are k columns of the pool and the kept ones", seed=seed)
        cols = [f"c{i}" for i in range(int(rng.integers(1, 9)))]
        keep = None if rng.random() < .4 else [str(c) for c in rng.choice(cols, int(rng.integers(0, len(cols) + 1)), replace=False)]
        pool = [c for c in cols if c not in (keep or [])]
        k = int(rng.integers(0, len(cols) + 2))
        kc = None if keep is None else list(keep)
        if k <= len(pool):
            r = C.call("cols:call", random_cols, cols, k, keep=keep, seed=seed)
            if r is not None:
                C.ok(r[:len(kc or [])] == (kc or []) and len(r) == k + len(kc or []) and set(r[len(kc or []):]) <= set(pool) and len(set(r)) == len(r), "cols", r, [k, kc, pool])
                C.ok(keep == kc, "cols:keep", keep, kc)
                C.ok(random_cols(cols, k, keep=None if kc is None else list(kc), seed=seed) == r, "cols:seed")
        else:
            C.raises("cols:few", random_cols, cols, k, keep=keep, seed=seed)
        C.begin("a partition holds every row in the part of its key", frame=df)
        for by in (None, "g", ["h", "b"], ["g", "h"]):
            ph = C.call("part:call", PartitionHelper, src if it % 4 == 0 else df, by)
            if ph is None:
                continue
            bs = [] if by is None else [by] if isinstance(by, str) else by
            want = {}
            for r in df.iter_rows(named=True):
                want.setdefault("|".join(str(r[q]) for q in bs) if by is not None else "df", []).append(r["id"])
            C.ok({k: v["id"].to_list() for k, v in ph.parts.items()} == want, "part:parts", {k: v["id"].to_list() for k, v in ph.parts.items()}, want)
            C.ok(ph.names() == list(ph.parts) and all(ph.get(k).equals(v) for k, v in ph.parts.items()) and ph.get("no such") is None, "part:get")
            C.ok({k: len(v) for k, v in ph.head(2).items()} == {k: min(2, len(v)) for k, v in want.items()}, "part:head")

            def fn(name, d):
                if name.startswith("a"):
                    raise ValueError("no")
                return (name, len(d))
            C.ok(ph.apply(fn) == {k: (k, len(v)) for k, v in want.items() if not k.startswith("a")}, "part:apply")
        C.raises("part:type", PartitionHelper, df, "w")
        for q, by, sep in (({"a": ["x|y", "x", "x"], "b": ["z", "y|z", "q"]}, ["a", "b"], "|"), ({"a": ["None", None, "x"]}, "a", "|"), ({"a": ["x|y", "x", "x"], "b": ["z", "y|z", "q"]}, ["a", "b"], "/")):
            C.begin("a partition loses no row when key values join to the same name", frame=q, by=by, separator=sep)
            try:
                parts = PartitionHelper(pl.DataFrame(q), by, separator=sep).parts
            except ValueError:
                parts = None            # refused: nothing is lost
            C.ok(parts is None and sep == "|" or parts is not None and sum(len(v) for v in parts.values()) == 3, "part:collide", str(parts), 3)
