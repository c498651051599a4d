import numpy as np, polars as pl, math
import polars_ds as pds
from polars_ds.exprs import num as NUM
from common import hide
from scipy import special as sp
RULE = "float64, float32 and integer columns with zeros, ones, values outside the domain, infinities, NaN, missing values (also hidden under a validity mask), chunked; coordinates over the whole sphere including poles, antipodes and equal points; oracles: scipy.special / libm definitions; distinct by (clause, input)"


def lab(x):
    return x


def run(C):
    rng = C.rng
    it = 0
    base = [0., 1., -1., .5, 2., 1e-300, 1e300, -0.0, 1e-8, .999999999, 3.25, -2.5, 20., 171.5, math.inf, -math.inf, math.nan]
    with np.errstate(all="ignore"):
        while C.time_ok() and it < (6000 if not C.thorough else 100000):
            it += 1
            n = int(rng.choice([1, 2, 5, 12]))
            kind = it % 3
            if kind == 0:
                v = [base[int(i)] for i in rng.integers(0, len(base), n)]
            elif kind == 1:
                v = rng.random(n).tolist()
            else:
                v = (rng.normal(size=n) * 10.0 ** rng.integers(-4, 3)).tolist()
            x = np.array(v)
            holes = rng.random(n) < (.25 if it % 2 else 0)
            vv = [None if h else float(q) for h, q in zip(holes, v)]
            df = pl.DataFrame({"x": pl.Series(vv, dtype=pl.Float64)})
            if it % 2:
                df = hide(df)
            if it % 5 == 0 and n > 2:
                df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
            T = {
                "logit": (pds.logit("x"), np.where((x < 0) | (x > 1), np.nan, np.where(x == 0, -np.inf, np.where(x == 1, np.inf, np.log(x / (1 - x)))))),
                "expit": (pds.expit("x"), 1 / (1 + np.exp(-x))), "exp2": (pds.exp2("x"), np.exp2(x)), "trunc": (pds.trunc("x"), np.trunc(x)),
                "fract": (pds.fract("x"), np.where(np.isfinite(x), x - np.trunc(x), np.nan)),
                "next_up": (pds.next_up("x"), np.nextafter(x, np.inf)), "next_down": (pds.next_down("x"), np.nextafter(x, -np.inf)),
            }
            for k, (e, w) in T.items():
                C.begin(k, x=vv)
                r = C.call(k + ":call", lambda: df.select(e.alias("o"))["o"].to_list())
                if r is not None:
                    tol = 0 if k in ("trunc", "fract", "next_up", "next_down") else 1e-10
                    C.close(r, [None if h else float(q) for h, q in zip(holes, w)], k, tol, 1e-300)
            pos = (x > 0) & (x < 170)
            if pos.any():
                C.begin("gamma", x=vv)
                r = C.call("gamma:call", lambda: df.select(pds.gamma("x").alias("o"))["o"].to_list())
                if r is not None:
                    for i in range(n):
                        if holes[i]:
                            C.ok(r[i] is None, "gamma:null", r)
                        elif pos[i] and x[i] > 1e-200:
                            C.close(r[i], float(sp.gamma(x[i])), "gamma", 1e-9)
                C.begin("digamma", x=vv)
                r = C.call("digamma:call", lambda: df.select(pds.digamma("x").alias("o"))["o"].to_list())
                if r is not None:
                    for i in range(n):
                        if holes[i]:
                            C.ok(r[i] is None, "digamma:null", r)
                        elif pos[i] and x[i] > 1e-200:
                            C.close(r[i], float(sp.digamma(x[i])), "digamma", 1e-7, 1e-7)
            y = np.array([base[int(i)] for i in rng.integers(0, len(base), n)]) if it % 2 else rng.random(n) * 4
            hy = rng.random(n) < .15
            d2 = df.with_columns(y=pl.Series([None if h else float(q) for h, q in zip(hy, y)], dtype=pl.Float64))
            if it % 2:
                d2 = hide(d2)
            C.begin("xlogy", x=vv, y=d2["y"])
            r = C.call("xlogy:call", lambda: d2.select(pds.xlogy("x", "y").alias("o"))["o"].to_list())
            if r is not None:
                C.close(r, [None if a or b else (0. if p == 0 and not math.isnan(q) else float(p * np.log(q))) for a, b, p, q in zip(holes, hy, x, y)], "xlogy", 1e-12)
            if np.isfinite(x).all():
                C.begin("sinc", x=vv)
                r = C.call("sinc:call", lambda: df.select(NUM.sinc("x").alias("o"))["o"].to_list())
                if r is not None:
                    for i in range(n):
                        if not holes[i] and abs(x[i]) < 1e5:
                            C.close(r[i], float(np.sinc(x[i])), "sinc", 1e-7, 1e-8)
            # integers
            if it % 4 == 0:
                iv = [None if rng.random() < .2 else int(q) for q in rng.integers(0, 9, n)]
                dt = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64][it // 4 % 8]
                di = hide(pl.DataFrame({"x": pl.Series(iv, dtype=dt)}))
                C.begin("integer columns", x=iv, dtype=str(dt))
                for k, e, f in (("expit", pds.expit("x"), lambda q: 1 / (1 + math.exp(-q))), ("exp2", pds.exp2("x"), lambda q: 2. ** q), ("trunc", pds.trunc("x"), lambda q: q), ("fract", pds.fract("x"), lambda q: 0.),
                                ("next_up", pds.next_up("x"), lambda q: float(np.nextafter(np.float32(q), np.float32(np.inf)))), ("next_down", pds.next_down("x"), lambda q: float(np.nextafter(np.float32(q), np.float32(-np.inf)))),
                                ("digamma", pds.digamma("x"), lambda q: float(sp.digamma(q)) if q > 0 else None), ("gamma", pds.gamma("x"), lambda q: float(sp.gamma(q)) if q else math.inf)):
                    r = C.call("int:" + k, lambda: di.select(e.alias("o"))["o"].to_list())
                    if r is not None:
                        for g, q in zip(r, iv):
                            if q is None:
                                C.ok(g is None, "int:" + k + ":null", r)
                            elif f(q) is not None:
                                C.close(g, f(q), "int:" + k, 1e-6, 1e-7)
                C.begin("log-odds of an integer column", x=iv, dtype=str(dt))
                r = C.call("int:logit", lambda: di.select(pds.logit("x").alias("o"))["o"].to_list())
                if r is not None:
                    C.close(r, [None if q is None else -math.inf if q == 0 else math.inf if q == 1 else math.nan for q in iv], "int:logit", 1e-6)
            # single precision
            if it % 2 == 0:
                f = x.astype(np.float32)
                q = f.astype(float)
                df4 = pl.DataFrame({"x": pl.Series([None if h else float(z) for h, z in zip(holes, f)], dtype=pl.Float32)})
                if it % 4 == 0:
                    df4 = hide(df4)
                C.begin("single-precision columns", x=df4["x"])
                inside = (q > 0) & (q < 1)
                T = (("logit", pds.logit("x"), np.where((q < 0) | (q > 1), np.nan, np.where(q == 0, -np.inf, np.where(q == 1, np.inf, np.log(q / (1 - q))))), 1e-4, 1e-5),
                     ("expit", pds.expit("x"), 1 / (1 + np.exp(-q)), 1e-4, 1e-37), ("exp2", pds.exp2("x"), np.exp2(f).astype(float), 1e-5, 1e-37), ("trunc", pds.trunc("x"), np.trunc(q), 0, 0),
                     ("fract", pds.fract("x"), np.where(np.isfinite(q), (f - np.trunc(f)).astype(float), np.nan), 0, 0),
                     ("next_up", pds.next_up("x"), np.nextafter(f, np.float32(np.inf)).astype(float), 0, 0), ("next_down", pds.next_down("x"), np.nextafter(f, np.float32(-np.inf)).astype(float), 0, 0))
                for k, e, w, rt, at in T:
                    r = C.call("f32:" + k + ":call", lambda: df4.select(e.alias("o"))["o"].to_list())
                    if r is not None:
                        ok = [not (k == "logit" and inside[i] and abs(q[i] - .5) > .4999) for i in range(n)]
                        C.close([v for v, o in zip(r, ok) if o], [None if h else float(z) for h, z, o in zip(holes, w, ok) if o], "f32:" + k, rt, at)
                for k, e, g in (("gamma", pds.gamma("x"), sp.gamma), ("digamma", pds.digamma("x"), sp.digamma)):
                    r = C.call("f32:" + k + ":call", lambda: df4.select(e.alias("o"))["o"].to_list())
                    if r is not None:
                        for i in range(n):
                            if holes[i]:
                                C.ok(r[i] is None, "f32:" + k + ":null", r)
                            elif 1e-3 < q[i] < 30:
                                C.close(r[i], float(g(q[i])), "f32:" + k, 1e-3, 1e-4)
            # horizontal norms and column scalings
            m = np.array([[0. if not math.isfinite(q) or abs(q) > 1e6 else q for q in x], rng.normal(size=n), rng.integers(-3, 4, n)])
            d3 = pl.DataFrame({"a": m[0], "b": m[1], "c": m[2]})
            C.begin("horizontal norms", m=m)
            for nz in (False, True):
                r = C.call("norm:call", lambda: d3.select(pds.l1_horizontal("a", pl.col("b"), "c", normalize=nz).alias("x"), pds.l2_sq_horizontal("a", "b", "c", normalize=nz).alias("y"), pds.l_inf_horizontal("a", "b", "c", normalize=nz).alias("z")))
                if r is not None:
                    q = 3 if nz else 1
                    C.close(r["x"], np.abs(m).sum(0) / q, "norm:l1", 1e-9)
                    C.close(r["y"], (m ** 2).sum(0) / q, "norm:l2", 1e-9)
                    C.close(r["z"], np.abs(m).max(0) / q, "norm:linf", 1e-9)
            if n > 1:
                C.begin("centring, scaling, softmax", x=m[1])
                r = C.call("scale:call", lambda: d3.select(pds.center("b").alias("x"), pds.z_normalize("b").alias("y"), pds.softmax("b").alias("z")))
                if r is not None:
                    C.close(r["x"], m[1] - m[1].mean(), "center", 1e-8)
                    C.close(r["y"], (m[1] - m[1].mean()) / m[1].std(ddof=1), "z_normalize", 1e-7)
                    C.close(r["z"], np.exp(m[1]) / np.exp(m[1]).sum(), "softmax", 1e-8)
            # haversine
            pts = np.c_[rng.uniform(-90, 90, n), rng.uniform(-180, 180, n), rng.uniform(-90, 90, n), rng.uniform(-180, 180, n)]
            pts[rng.random((n, 4)) < .2] = 0
            if rng.random() < .3:
                pts[:, 2:] = pts[:, :2]
            if rng.random() < .1:
                pts[0] = [90, 10, -90, 50]
            sc = it % 3
            hn = rng.random((n, 4)) < (.1 if it % 2 else 0)
            if sc:
                pts[:, 2:] = pts[0, 2:]
                hn[:, 2:] = hn[0, 2:] if sc == 2 else False
            cols = [[None if hn[i, j] else float(pts[i, j]) for i in range(n)] for j in range(4)]
            d4 = pl.DataFrame({f"p{j}": pl.Series(cols[j], dtype=pl.Float64) for j in range(4)})
            if it % 2:
                d4 = hide(d4)
            a, b = ("p2", "p3") if sc == 0 else (float(pts[0, 2]), float(pts[0, 3])) if sc == 1 else (pl.lit(cols[2][0], dtype=pl.Float64), pl.lit(cols[3][0], dtype=pl.Float64))
            if it % 3 == 0:
                d5 = pl.DataFrame({f"p{j}": pl.Series(cols[j], dtype=pl.Float32) for j in range(4)})
                C.begin("great-circle distance of single-precision points", points=cols)
                r = C.call("haversine:f32", lambda: d5.select(pds.haversine("p0", "p1", "p2", "p3").alias("o"))["o"].to_list())
                if r is not None:
                    q = np.array([[0. if v is None else v for v in d5[f"p{j}"].to_list()] for j in range(4)]).T
                    R = np.radians(q)
                    u = np.c_[np.cos(R[:, 0]) * np.cos(R[:, 1]), np.cos(R[:, 0]) * np.sin(R[:, 1]), np.sin(R[:, 0])]
                    w = np.c_[np.cos(R[:, 2]) * np.cos(R[:, 3]), np.cos(R[:, 2]) * np.sin(R[:, 3]), np.sin(R[:, 2])]
                    ang = 2 * np.arctan2(np.linalg.norm(u - w, axis=1), np.linalg.norm(u + w, axis=1))
                    for i in range(n):
                        if hn[i].any():
                            C.ok(r[i] is None, "haversine:f32:null", r)
                        elif ang[i] < 3:
                            C.close(r[i], 6371. * float(ang[i]), "haversine:f32", 1e-3, 4.)
            C.begin("great-circle distance", points=cols, form=sc)
            r = C.call("haversine:call", lambda: d4.select(pds.haversine("p0", "p1", a, b).alias("o"))["o"].to_list())
            if r is not None:
                R = np.radians(pts)
                u = np.c_[np.cos(R[:, 0]) * np.cos(R[:, 1]), np.cos(R[:, 0]) * np.sin(R[:, 1]), np.sin(R[:, 0])]
                w = np.c_[np.cos(R[:, 2]) * np.cos(R[:, 3]), np.cos(R[:, 2]) * np.sin(R[:, 3]), np.sin(R[:, 2])]
                ang = 2 * np.arctan2(np.linalg.norm(u - w, axis=1), np.linalg.norm(u + w, axis=1))
                C.close(r, [None if hn[i].any() else 6371. * float(ang[i]) for i in range(n)], "haversine", 1e-8, 1e-6)
