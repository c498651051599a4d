import numpy as np, polars as pl, math
import polars_ds as pds
RULE = "series of length 0..60 with ties, monotone runs, constant stretches, large steps; with and without positive weights, both directions; oracle: block min-max formula of isotonic regression (independent of pool-adjacent-violators); rejected inputs (missing values, non-positive weights, mismatched lengths) must raise; distinct by (clause, input)"


def oracle(y, w):
    """max over i<=k of min over j>=k of the weighted mean of y[i..j]"""
    n = len(y)
    cw = np.concatenate([[0.], np.cumsum(w)])
    cy = np.concatenate([[0.], np.cumsum(w * y)])
    M = np.full((n, n), np.nan)
    for i in range(n):
        M[i, i:] = (cy[i + 1:] - cy[i]) / (cw[i + 1:] - cw[i])
    out = np.empty(n)
    for k in range(n):
        out[k] = np.max([np.min(M[i, k:]) for i in range(k + 1)])
    return out


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 100000):
        it += 1
        n = int(rng.choice([1, 2, 3, 4, 7, 15, 40]))
        kind = it % 6
        if kind == 0:
            y = rng.normal(size=n)
        elif kind == 1:
            y = rng.integers(-3, 4, n).astype(float)
        elif kind == 2:
            y = np.sort(rng.integers(0, 5, n)).astype(float)
        elif kind == 3:
            y = np.sort(rng.normal(size=n))[::-1].copy()
        elif kind == 4:
            y = np.arange(n) + rng.integers(-4, 5, n) * 1.0
        else:
            y = np.where(rng.random(n) < .2, 100., 0.) + rng.integers(0, 3, n)
        inc = bool(rng.random() < .6)
        w = None if rng.random() < .4 else rng.integers(1, 6, n) * rng.choice([1., .25, 3.])
        d = {"y": y}
        if w is not None:
            d["w"] = w
        df = pl.DataFrame(d)
        if it % 3 == 0 and n > 2:
            df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
        C.begin("isotonic fit", y=y, w=w, increasing=inc)
        r = C.call("iso:call", lambda: df.select(pds.isotonic_regression("y", None if w is None else "w", increasing=inc).alias("o"))["o"].to_list())
        if r is None:
            continue
        ww = np.ones(n) if w is None else w
        ref = oracle(y, ww) if inc else oracle(y[::-1], ww[::-1])[::-1]
        if not C.ok(len(r) == n, "iso:len", len(r), n):
            continue
        C.close(r, ref, "iso:%s" % ("inc" if inc else "dec"), 1e-9, 1e-9)
        g = np.array(r, float)
        if n > 1:
            dd = np.diff(g) if inc else -np.diff(g)
            C.begin("isotonic fit is monotone", y=y, w=w, increasing=inc)
            C.ok((dd >= -1e-9).all(), "iso:monotone", r)
            C.begin("isotonic fit keeps the weighted total", y=y, w=w, increasing=inc)
            C.close(float((g * ww).sum()), float((y * ww).sum()), "iso:total", 1e-9, 1e-8)
        if it % 20 == 0:
            C.begin("integer targets", y=np.round(y))
            r = C.call("iso:int", lambda: pl.DataFrame({"y": np.round(y).astype(int)}).select(pds.isotonic_regression("y").alias("o"))["o"].to_list())
            if r is not None:
                C.close(r, oracle(np.round(y), np.ones(n)), "iso:int", 1e-9, 1e-9)
        if it % 40 == 0 and n > 1:
            C.begin("isotonic fit refuses bad input", y=y)
            yn = [None] + list(y[1:])
            C.raises("iso:null", lambda: pl.DataFrame({"y": yn}).select(pds.isotonic_regression("y")))
            wb = np.ones(n)
            wb[int(rng.integers(n))] = rng.choice([0., -1.])
            C.raises("iso:neg", lambda: pl.DataFrame({"y": y, "w": wb}).select(pds.isotonic_regression("y", "w")))
            C.raises("iso:nullw", lambda: pl.DataFrame({"y": y, "w": [None] + list(np.ones(n - 1))}).select(pds.isotonic_regression("y", "w")))
        if it % 50 == 0:
            C.begin("isotonic fit per group", y=y, g=(np.arange(n) % 3))
            df2 = pl.DataFrame({"y": y, "g": np.arange(n) % 3})
            r = C.call("iso:group", lambda: df2.select(pds.isotonic_regression("y").over("g").alias("o"))["o"].to_numpy())
            if r is not None:
                for k in range(3):
                    m = np.arange(n) % 3 == k
                    if m.any():
                        C.close(r[m], oracle(y[m], np.ones(m.sum())), "iso:group", 1e-9, 1e-9)
