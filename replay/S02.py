import numpy as np, polars as pl, math
import polars_ds as pds
from common import hide
from polars_ds.exprs import string as ST
from strlib import *
RULE = "pairs of strings from S01 (including empty ones, strings shorter than the n-gram size, multi-byte characters, missing values), n-gram sizes 1..4, column and literal second operands, serial and parallel, alpha and beta in {0, .25, .5, 1, 2}; the oracle builds the byte n-gram sets; distinct by (clause, input)"


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 80000):
        it += 1
        n = int(rng.choice([1, 2, 5, 13, 40]))
        a = [rstr(rng) for _ in range(n)]
        b = [near(rng, x) if rng.random() < .7 else rstr(rng) for x in a]
        if it % 2:
            a = [None if rng.random() < .15 else x for x in a]
            b = [None if rng.random() < .15 else x for x in b]
        scalar = it % 3 == 0
        o = pl.col("b")
        if scalar:
            o = pl.lit(b[0], dtype=pl.String)
            b = [b[0]] * n
        df = hide(pl.DataFrame({"a": pl.Series(a, dtype=pl.String), "b": pl.Series(b, dtype=pl.String)}))
        if it % 4 == 0 and n > 2:
            df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
        par = bool(it % 5 == 0)
        g = int(rng.integers(1, 5))
        al, be = (float(x) for x in rng.choice([0, .25, .5, 1, 2], 2))

        def ref(kind):
            out = []
            for x, y in zip(a, b):
                if x is None or y is None:
                    out.append(None)
                    continue
                if not x or not y:
                    out.append("empty")
                    continue
                A, B = grams(x, g), grams(y, g)
                i, u, v = len(A & B), len(A), len(B)
                den = {"jaccard": u + v - i, "overlap": min(u, v), "dice": (u + v) / 2, "tversky": i + al * (u - i) + be * (v - i)}[kind]
                out.append(i / den if den else "degenerate")
            return out
        for kind, e in (("jaccard", pds.str_jaccard("a", o, g, parallel=par)), ("dice", pds.str_sorensen_dice("a", o, g, parallel=par)), ("overlap", ST.str_overlap_coeff("a", o, g, parallel=par)), ("tversky", pds.str_tversky_sim("a", o, al, be, g, parallel=par))):
            C.begin("n-gram similarity " + kind, a=a, b=b if not scalar else {"literal": b[0]}, n=g, alpha=al, beta=be, parallel=par)
            r = C.call(kind + ":call", lambda: df.select(e.alias("o"))["o"].to_list())
            if r is None:
                continue
            w = ref(kind)
            C.ok(len(r) == len(w), kind + ":len", len(r), len(w))
            for x, y in zip(r, w):
                if y == "empty" or y == "degenerate":
                    C.ok(x is not None and (math.isnan(x) or x == 0), kind + ":" + y, x, "0 or NaN")
                else:
                    C.close(x, y, kind, 1e-10, 1e-12)
