import numpy as np, polars as pl, math, itertools
import polars_ds as pds
from common import hide
RULE = "integer columns of every width (including extremes, negatives, zeros), strings, floats, lists, missing values, chunked frames, literal and column operands; k from 0 to length; oracles: Python itertools, math.gcd, sets; distinct by (clause, input)"
INTS = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64]


def holes(rng, v, p=.15):
    return [None if rng.random() < p else x for x in v]


def first_digit(x):
    if x == 0:
        return 0
    if isinstance(x, np.float32):
        return int(next(c for c in np.format_float_positional(abs(x), unique=True) if c not in "0."))
    if isinstance(x, int):
        return int(str(abs(x))[0])
    return int(f"{abs(x):e}"[0]) if False else int(next(c for c in repr(float(abs(x))).replace(".", "") if c not in "0"))


def streak(v):
    best = cur = 0
    for x in v:
        cur = cur + 1 if x else 0
        best = max(best, cur)
    return best


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (6000 if not C.thorough else 100000):
        it += 1
        n = int(rng.choice([1, 2, 3, 4, 6, 9]))
        dt = INTS[int(rng.integers(len(INTS)))]
        info = np.iinfo(str(dt).lower())
        big = rng.random() < .3
        v = [int(x) for x in (rng.integers(-4, 5, n) if info.min < 0 else rng.integers(0, 6, n))]
        if big:
            v[int(rng.integers(n))] = int(info.min if rng.random() < .5 else info.max)
        v = holes(rng, v) if it % 3 == 0 else v
        s = pl.Series("a", v, dtype=dt)
        df = hide(s.to_frame()) if it % 2 else s.to_frame()
        if it % 4 == 0 and n > 2:
            df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
        nn = [x for x in v if x is not None]
        # combinations
        k = int(rng.integers(0, 5))
        uq = bool(rng.random() < .4)
        src = sorted(set(nn)) if uq else nn
        C.begin("k-combinations", a=v, dtype=str(dt), k=k, unique=uq)
        if k <= len(src):
            r = C.call("comb:call", lambda: df.select(pds.combinations("a", k, uq).alias("o"))["o"].to_list())
            if r is not None:
                C.ok(r == [list(c) for c in itertools.combinations(src, k)], "comb", r)
        else:
            C.raises("comb:k>n", lambda: df.select(pds.combinations("a", k, uq)))
        if it % 5 == 0:
            st = holes(rng, [str(rng.choice(["a", "bb", "", "é"])) for _ in range(n)], .1)
            sn = [x for x in st if x is not None]
            src = sorted(set(sn), key=lambda x: x.encode()) if uq else sn
            C.begin("k-combinations of strings", a=st, k=k, unique=uq)
            if k <= len(src):
                r = C.call("comb:str", lambda: pl.DataFrame({"a": pl.Series(st, dtype=pl.String)}).select(pds.combinations("a", k, uq).alias("o"))["o"].to_list())
                if r is not None:
                    C.ok(r == [list(c) for c in itertools.combinations(src, k)], "comb:str", r)
        # product
        w = holes(rng, [int(x) for x in rng.integers(0, 5, n)], .2)
        d2 = df.with_columns(b=pl.Series(w, dtype=dt))
        C.begin("cartesian product", a=v, b=w)
        r = C.call("prod:call", lambda: d2.select(pds.product("a", "b").alias("o"))["o"].to_list())
        if r is not None:
            C.ok(r == [[x, y] for x in nn for y in w if y is not None], "prod", r)
        if it % 3 == 1:
            odt = [pl.Float32, pl.Float64, pl.String][it // 3 % 3]
            cw = (lambda z: None if z is None else str(z)) if odt == pl.String else (lambda z: z if z is None else z / 4)
            p1 = [None if z is None else cw(int(z) % 7) for z in v]
            p2 = [None if z is None else cw(int(z)) for z in w]
            d2 = pl.DataFrame({"a": pl.Series(p1, dtype=odt), "b": pl.Series(p2, dtype=odt)})
            p1, p2 = [z for z in d2["a"].to_list() if z is not None], [z for z in d2["b"].to_list() if z is not None]
            C.begin("cartesian product and combinations of other columns", a=d2["a"], b=d2["b"], k=k)
            r = C.call("prod:other", lambda: d2.select(pds.product("a", "b").alias("o"))["o"].to_list())
            if r is not None:
                C.ok(r == [[z, q] for z in p1 for q in p2], "prod:other", r)
            if k <= len(p1):
                r = C.call("comb:other", lambda: d2.select(pds.combinations("a", k).alias("o"))["o"].to_list())
                if r is not None:
                    C.ok(r == [list(c) for c in itertools.combinations(p1, k)], "comb:other", r)
        # gcd / lcm over Int32
        lim = 46000 if rng.random() < .8 else 2 ** 31 - 1
        a = holes(rng, [int(x) for x in rng.integers(-lim, lim + 1, n)] if rng.random() < .5 else [int(x) for x in rng.integers(-12, 40, n)], .15)
        b = holes(rng, [int(x) for x in rng.integers(-12, 40, n)], .15)
        scal = it % 3
        if scal == 0:
            y, bb = int(b[0] or 6), [int(b[0] or 6)] * n
        elif scal == 1:
            y, bb = "b", b
        else:
            y, bb = pl.lit(b[0], dtype=pl.Int32), [b[0]] * n
        d3 = pl.DataFrame({"a": pl.Series(a, dtype=pl.Int64), "b": pl.Series(b, dtype=pl.Int32)})
        C.begin("greatest common divisor", a=a, b=bb, form=scal)
        r = C.call("gcd:call:%d" % (bb[0] is None and n == 1), lambda: d3.select(pds.gcd("a", y).alias("o"))["o"].to_list())
        if r is not None:
            C.ok(r == [None if p is None or q is None else math.gcd(p, q) for p, q in zip(a, bb)], "gcd", r, [None if p is None or q is None else math.gcd(p, q) for p, q in zip(a, bb)])
        want = [None if p is None or q is None else math.lcm(p, q) for p, q in zip(a, bb)]
        if all(x is None or x < 2 ** 31 for x in want):
            C.begin("least common multiple", a=a, b=bb, form=scal)
            r = C.call("lcm:call", lambda: d3.select(pds.lcm("a", y).alias("o"))["o"].to_list())
            if r is not None:
                C.ok(r == want, "lcm", r, want)
        # jaccard over columns
        u = [int(x) for x in rng.integers(0, 5, n)]
        t = [int(x) for x in rng.integers(0, 5, n)]
        if it % 2:
            u, t = holes(rng, u), holes(rng, t)
        kind = it % 4
        dts = {0: (dt, dt), 1: (pl.String, pl.String), 2: (pl.Int32, pl.Int64), 3: (pl.Float64, pl.Float64) if it % 8 == 3 else (pl.Float32, pl.Float32)}[kind]
        cv = (lambda x: None if x is None else str(x)) if kind == 1 else (lambda x: None if x is None else float(x)) if kind == 3 else (lambda x: x)
        u, t = [cv(x) for x in u], [cv(x) for x in t]
        d4 = pl.DataFrame({"u": pl.Series(u, dtype=dts[0]), "t": pl.Series(t, dtype=dts[1])})
        if it % 3 == 0:
            d4, d3 = hide(d4), hide(d3)
        if it % 5 == 0 and n > 2:
            d4 = pl.concat([d4[:n // 2], d4[n // 2:]], rechunk=False)
        cn = bool(rng.random() < .5)
        A, B = set(u), set(t)
        if not cn:
            A.discard(None)
            B.discard(None)
        C.begin("Jaccard similarity of columns" + (" with missing values" if None in u + t else ""), u=u, t=t, count_null=cn, dtype=str(dts))
        r = C.call("jac_col:call", lambda: d4.select(pds.jaccard_col("u", "t", cn).alias("o"))["o"].to_list())
        if r is not None and (A | B):
            C.close(r, [len(A & B) / len(A | B)], "jac_col:" + ("null" if None in u + t else "full"), 1e-12)
        # jaccard over lists
        la = [None if rng.random() < .15 else [int(x) for x in rng.integers(0, 5, int(rng.integers(0, 5)))] for _ in range(n)]
        lb = [None if rng.random() < .15 else [int(x) for x in rng.integers(0, 5, int(rng.integers(0, 5)))] for _ in range(n)]
        if it % 3 == 0:
            la = [x and holes(rng, x) for x in la]
        idt = dt
        if it % 2:
            la, lb = [x and [None if z is None else str(z) for z in x] for x in la], [x and [str(z) for z in x] for x in lb]
            idt = pl.String
        d5 = pl.DataFrame({"u": pl.Series(la, dtype=pl.List(idt)), "t": pl.Series(lb, dtype=pl.List(idt))})
        C.begin("Jaccard similarity of lists", u=la, t=lb)
        r = C.call("jac_row:call", lambda: d5.select(pds.jaccard_row("u", "t").alias("o"))["o"].to_list())
        if r is not None:
            for x, p, q in zip(r, la, lb):
                if p is None or q is None:
                    C.ok(x is None, "jac_row:null", x)
                elif p or q:
                    C.close(x, len(set(p) & set(q)) / len(set(p) | set(q)), "jac_row", 1e-12)
        # argmax of lists
        fl = [None if rng.random() < .1 else [float(x) for x in rng.integers(0, 6, int(rng.integers(1, 5)))] for _ in range(n)]
        C.begin("position of the largest list entry", l=fl)
        r = C.call("amax:call", lambda: pl.DataFrame({"l": pl.Series(fl, dtype=pl.List(pl.Float64))}).select(pds.list_amax("l").alias("o"))["o"].to_list())
        if r is not None:
            for x, l in zip(r, fl):
                x = x[0] if isinstance(x, list) and x else x
                C.ok((l is None and x is None) or (l is not None and x is not None and l[x] == max(l)), "amax", x, l)
        # first digits
        kind = it % 3
        if kind == 0:
            x, dd = v, dt
        elif kind == 1 and it % 4 == 0:
            x, dd = holes(rng, [np.float32(z) for z in rng.normal(size=n) * 10.0 ** rng.integers(-20, 15, n)]), pl.Float32
        elif kind == 1:
            x, dd = holes(rng, [float(z) for z in rng.normal(size=n) * 10.0 ** rng.integers(-9 if it % 2 else -200, 15, n)]), pl.Float64
        else:
            x, dd = holes(rng, [int(z) for z in rng.integers(-10 ** 6, 10 ** 6, n)]), pl.Int64
        cnt = [0] * 10
        for z in x:
            if z is not None:
                cnt[first_digit(z)] += 1
        C.begin("first-digit counts" + (" with missing values" if None in x else ""), x=x, dtype=str(dd))
        r = C.call("benford:call", lambda: hide(pl.DataFrame({"x": pl.Series(x, dtype=dd)})).select(pds.query_first_digit_cnt("x").alias("o"))["o"].to_list())
        if r is not None:
            C.ok(r == [cnt[1:]], "benford:" + str(kind) + (":null" if None in x else ""), r, cnt[1:])
        # streaks
        z = holes(rng, [int(q) for q in rng.integers(-2, 3, n)], .1 if it % 2 else 0)
        d6 = pl.DataFrame({"z": pl.Series(z, dtype=pl.Int64)})
        C.begin("longest streak", z=z)
        r = C.call("streak:call", lambda: d6.select(pds.query_longest_streak(pl.col("z") > 0).alias("o"))["o"].to_list())
        if r is not None:
            C.ok((r[0] or 0) == streak([q is not None and q > 0 for q in z]), "streak", r)
            runs = [sum(1 for _ in g) for k, g in itertools.groupby(q is not None and q > 0 for q in z) if k]
            C.close([d6.select(pds.query_avg_streak(pl.col("z") > 0).alias("o"))["o"][0]], [sum(runs) / len(runs) if runs else 0.0], "streak:avg", 1e-12)
        if None not in z:
            C.begin("monotonicity tests", z=z)
            r = C.call("mono:call", lambda: d6.select(pds.is_increasing("z").alias("i"), pds.is_increasing("z", True).alias("si"), pds.is_decreasing("z").alias("d"), pds.is_decreasing("z", True).alias("sd")).row(0))
            if r is not None:
                p = list(zip(z, z[1:]))
                C.ok(list(r) == [all(a <= b for a, b in p), all(a < b for a, b in p), all(a >= b for a, b in p), all(a > b for a, b in p)], "mono", r)
