import numpy as np, polars as pl, math
import polars_ds as pds
from common import hide
from strlib import *
RULE = "columns of 1..40 strings over small alphabets with multi-byte characters, empty strings, long strings and missing values, the second operand a column, a literal or a missing literal, serial and parallel, one or several chunks; every value is recomputed by the textbook dynamic programme; distinct by (clause, input)"


def N(f):
    return lambda a, b: None if a is None or b is None else f(a, b)


def run(C):
    rng = C.rng
    M = [("lev", lambda c, o, p: pds.str_leven(c, o, parallel=p), N(lev)),
         ("lev_sim", lambda c, o, p: pds.str_leven(c, o, parallel=p, return_sim=True), N(lambda a, b: norm(lev(a, b), max(len(a), len(b))))),
         ("dlev", lambda c, o, p: pds.str_d_leven(c, o, parallel=p), N(dlev)),
         ("dlev_sim", lambda c, o, p: pds.str_d_leven(c, o, parallel=p, return_sim=True), N(lambda a, b: norm(dlev(a, b), max(len(a), len(b))))),
         ("osa", lambda c, o, p: pds.str_osa(c, o, parallel=p), N(osa)),
         ("osa_sim", lambda c, o, p: pds.str_osa(c, o, parallel=p, return_sim=True), N(lambda a, b: norm(osa(a, b), max(len(a), len(b))))),
         ("lcs", lambda c, o, p: pds.str_lcs_seq(c, o, parallel=p, return_sim=False), N(lambda a, b: max(len(a), len(b)) - lcs(a, b))),
         ("lcs_sim", lambda c, o, p: pds.str_lcs_seq(c, o, parallel=p), N(lambda a, b: norm(max(len(a), len(b)) - lcs(a, b), max(len(a), len(b))))),
         ("hamming", lambda c, o, p: pds.str_hamming(c, o, parallel=p), N(hamming)),
         ("hamming_pad", lambda c, o, p: pds.str_hamming(c, o, pad=True, parallel=p), N(lambda a, b: hamming(a, b, True))),
         ("jaro", lambda c, o, p: pds.str_jaro(c, o, parallel=p), N(jaro)),
         ("fuzz", lambda c, o, p: pds.str_fuzz(c, o, parallel=p), N(ratio))]
    it = 0
    while C.time_ok() and it < (2000 if not C.thorough else 40000):
        it += 1
        n = int(rng.choice([1, 2, 5, 13, 40]))
        a = [rstr(rng) for _ in range(n)]
        b = [near(rng, x) if rng.random() < .7 else rstr(rng) for x in a]
        if it % 2:
            a = [None if rng.random() < .15 else x for x in a]
            b = [None if rng.random() < .15 else x for x in b]
        scalar = it % 3 == 0
        if scalar:
            lit = b[0]
            o = pl.lit(lit, dtype=pl.String)
            b = [lit] * n
        else:
            o = pl.col("b")
        df = hide(pl.DataFrame({"a": pl.Series(a, dtype=pl.String), "b": pl.Series(b, dtype=pl.String)}))
        if it % 4 == 0 and n > 2:
            df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
        par = bool(it % 5 == 0)
        inp = dict(a=a, b=b if not scalar else {"literal": b[0]}, parallel=par)
        for k in rng.permutation(len(M))[:4]:
            name, e, ref = M[int(k)]
            C.begin("string measure " + name, **inp)
            r = C.call(name + ":call", lambda: df.select(e(pl.col("a"), o, par).alias("o"))["o"].to_list())
            if r is not None:
                C.close(r, [ref(x, y) for x, y in zip(a, b)], name, 1e-9, 1e-12)
        w = float(rng.choice([.1, .05, .2, 0.0]))
        C.begin("Jaro-Winkler", weight=w, **inp)
        r = C.call("jw:call", lambda: df.select(pds.str_jw("a", o, weight=w, parallel=par).alias("o"))["o"].to_list())
        if r is not None:
            C.close(r, [N(lambda x, y: jw(x, y, w))(x, y) for x, y in zip(a, b)], "jw", 1e-9, 1e-12)
        bound = int(rng.integers(0, 6))
        C.begin("bounded filters keep exactly the rows within the bound", bound=bound, **inp)
        r = C.call("flev:call", lambda: df.select(pds.filter_by_levenshtein("a", o, bound, parallel=par).alias("o"))["o"].to_list())
        if r is not None:
            C.ok(r == [N(lambda x, y: lev(x, y) <= bound)(x, y) for x, y in zip(a, b)], "flev", r, [N(lev)(x, y) for x, y in zip(a, b)])
        r = C.call("fham:call", lambda: df.select(pds.filter_by_hamming("a", o, bound, parallel=par).alias("o"))["o"].to_list())
        if r is not None:
            C.ok(r == [N(lambda x, y: len(x) == len(y) and hamming(x, y) <= bound)(x, y) for x, y in zip(a, b)], "fham", r, [N(hamming)(x, y) for x, y in zip(a, b)])
        if it % 3 == 1:
            word, th = rstr(rng, 6), int(rng.choice([1, 2, 3, 100]))
            for m, f in (("lv", lev), ("hamming", hamming)):
                C.begin("nearest string", column=a, word=word, threshold=th, metric=m)
                r = C.call("nearest:call", lambda: df.select(pds.str_nearest("a", word, threshold=th, metric=m).alias("o"))["o"].to_list())
                ds = [f(x, word) for x in a if x is not None]
                ds = [d for d in ds if d is not None and d <= th]
                if r is not None:
                    C.ok(len(r) == 1 and ((r[0] is None) == (not ds)) and (not ds or (r[0] in a and f(r[0], word) == min(ds))), "nearest", r, {"distance": min(ds) if ds else None})
        if it % 4 == 1:
            voc = [near(rng, x) for x in [y for y in a if y][:3]] or ["ab"]
            th = float(rng.choice([.3, .5, .8]))
            for m, f in (("lv", lambda x, y: norm(lev(x, y), max(len(x), len(y)))), ("dlv", lambda x, y: norm(dlev(x, y), max(len(x), len(y)))), ("osa", lambda x, y: norm(osa(x, y), max(len(x), len(y)))), ("jw", lambda x, y: jw(x, y, .1))):
                for st in ("avg", "all", "any"):
                    aa = [x for x in a if x is not None]
                    if not aa:
                        continue
                    C.begin("similar to vocabulary", column=aa, vocab=voc, threshold=th, metric=m, strategy=st)
                    S = [[f(x, y) for y in voc] for x in aa]
                    if any(abs(v - th) < 1e-9 for r_ in S for v in r_ + [sum(r_) / len(r_)]):
                        continue
                    want = [{"avg": sum(s) / len(s) >= th, "all": all(v >= th for v in s), "any": any(v >= th for v in s)}[st] for s in S]
                    r = C.call("vocab:call", lambda: pl.DataFrame({"a": aa}).select(pds.similar_to_vocab("a", voc, th, metric=m, strategy=st).alias("o"))["o"].to_list())
                    if r is not None:
                        C.ok(r == want, "vocab", r, want)
        if it % 10 == 0:
            C.begin("declared result types are the actual types", **inp)
            for name, e, ref in M:
                try:
                    lf = df.lazy().select(e(pl.col("a"), pl.col("b"), False).alias("o"))
                    t1, t2 = lf.collect_schema()["o"], lf.collect()["o"].dtype
                except BaseException as ex:
                    C.ok(False, "type:call:" + name, repr(ex)[:200], "a result")
                    continue
                C.ok(t1 == t2, "type:" + name, str(t1), str(t2))
