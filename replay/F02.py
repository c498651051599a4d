import numpy as np, polars as pl, math
import polars_ds as pds
RULE = "series of length 0..70 (integers, floats, chunked), kernels of length 2..len, all five convolution modes x {direct, fft} x parallel, uniform and column spacings for the trapezoid rule, FFT lengths below, at and above the series length, full and half spectra, detrending with and without missing values; oracles: direct definitions in numpy; distinct by (clause, input)"


def conv(x, k, mode):
    full = np.array([sum(x[i - j] * k[j] for j in range(len(k)) if 0 <= i - j < len(x)) for i in range(len(x) + len(k) - 1)])
    n, m = len(x), len(k)
    return {"full": full, "same": full[(m - 1) // 2:(m - 1) // 2 + n], "left": full[:n], "right": full[m - 1:], "valid": full[m - 1:n]}[mode]


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 100000):
        it += 1
        n = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 30, 64]))
        x = rng.normal(size=n) if it % 2 else rng.integers(-4, 5, n).astype(float)
        df = pl.DataFrame({"x": x})
        if it % 3 == 0 and n > 2:
            df = pl.concat([df[:n // 2], df[n // 2:]], rechunk=False)
        # convolution
        if n >= 2:
            m = int(rng.integers(2, min(n, 9) + 1))
            k = rng.normal(size=m) if it % 4 else rng.integers(-3, 4, m).astype(float)
            for mode in ("full", "same", "left", "right", "valid"):
                method = "fft" if rng.random() < .5 else "direct"
                par = bool(rng.random() < .3)
                C.begin("convolution " + mode, x=x, kernel=k, method=method, parallel=par)
                kk = k.tolist() if it % 3 else (pl.Series(k) if it % 2 else k)
                r = C.call("conv:call:" + mode, lambda: df.select(pds.convolve("x", kk, method=method, mode=mode, parallel=par).alias("o"))["o"].to_list())
                if r is not None:
                    C.close(r, conv(x, k, mode), "conv:" + mode + ":" + method, 1e-8, 1e-8)
            if it % 5 == 0:
                C.begin("convolution with an expression kernel and missing values", x=x, kernel=k)
                xn = [None if i % 4 == 1 else float(v) for i, v in enumerate(x)]
                d2 = pl.DataFrame({"x": xn, "k": list(k) + [None] * (n - m)}, schema={"x": pl.Float64, "k": pl.Float64})
                r = C.call("conv:expr", lambda: d2.select(pds.convolve("x", pl.col("k").drop_nulls(), fill_value=2., mode="valid").alias("o"))["o"].to_list())
                if r is not None:
                    C.close(r, conv(np.array([2. if v is None else v for v in xn]), k, "valid"), "conv:expr", 1e-8, 1e-8)
            if it % 15 == 0:
                C.begin("a kernel longer than the series is refused", x=x)
                C.raises("conv:long", lambda: df.select(pds.convolve("x", [1.] * (n + 1))))
        # trapezoid
        g = np.sort(rng.integers(0, 40, n)) * .5 if it % 2 else np.cumsum(rng.random(n))
        d2 = df.with_columns(g=pl.Series(g))
        if it % 3 == 0 and n > 2:
            d2 = pl.concat([d2[:n // 2], d2[n // 2:]], rechunk=False)
        C.begin("trapezoid over a column", y=x, x=g)
        r = C.call("trapz:call", lambda: d2.select(pds.integrate_trapz("x", pl.col("g")).alias("o"))["o"].to_list())
        if r is not None:
            C.close(r, [float(sum((x[i] + x[i + 1]) / 2 * (g[i + 1] - g[i]) for i in range(n - 1)))], "trapz:col%s" % (":single" if n == 1 else ""), 1e-9, 1e-9)
        dx = float(rng.choice([.5, 1., 2.25]))
        if n > 1:
            C.begin("trapezoid with uniform spacing", y=x, dx=dx)
            r = C.call("trapz:dx", lambda: df.select(pds.integrate_trapz("x", dx).alias("o"))["o"].to_list())
            if r is not None:
                C.close(r, [float(sum((x[i] + x[i + 1]) / 2 * dx for i in range(n - 1)))], "trapz:dx", 1e-9, 1e-9)
        if it % 4 == 2 and n > 1:
            C.begin("columns of integers and of single precision", x=np.rint(x * 4), g=g)
            xi = np.rint(x * 4)
            for dt in (pl.Int32, pl.Int64, pl.Float32):
                d3 = pl.DataFrame({"x": pl.Series(xi).cast(dt), "g": pl.Series(np.rint(g * 2)).cast(dt)})
                gi = np.rint(g * 2)
                C.close(C.call("trapz:dtype", lambda: d3.select(pds.integrate_trapz("x", pl.col("g")).alias("o"))["o"][0]), float(sum((xi[i] + xi[i + 1]) / 2 * (gi[i + 1] - gi[i]) for i in range(n - 1))), "trapz:dtype", 1e-9, 1e-9)
                C.close(C.call("trapz:dx:dtype", lambda: d3.select(pds.integrate_trapz("x", dx).alias("o"))["o"][0]), float(sum((xi[i] + xi[i + 1]) / 2 * dx for i in range(n - 1))), "trapz:dx:dtype", 1e-9, 1e-9)
                C.close(C.call("conv:dtype", lambda: d3.select(pds.convolve("x", [1., -2.], mode="full").alias("o"))["o"].to_list()), conv(xi, np.array([1., -2.]), "full"), "conv:dtype", 1e-8, 1e-8)
                F = np.exp(-2j * np.pi * np.outer(np.arange(n // 2 + 1), np.arange(n)) / n) @ xi
                C.close(C.call("rfft:dtype", lambda: d3.select(pds.rfft("x").alias("o"))["o"].to_list()), [[z.real, z.imag] for z in F], "rfft:dtype", 1e-5, 1e-5)
        # fft
        if n >= 2:
            nn = None if rng.random() < .5 else int(rng.integers(2, 2 * n + 2))
            full = bool(rng.random() < .5)
            C.begin("discrete Fourier transform", x=x, n=nn, full=full)
            r = C.call("rfft:call", lambda: df.select(pds.rfft("x", n=nn, return_full=full).alias("o"))["o"].to_list())
            if r is not None:
                L = nn or n
                xx = np.zeros(L)
                xx[:min(n, L)] = x[:L]
                kk = np.arange(L if full else L // 2 + 1)
                F = np.exp(-2j * np.pi * np.outer(kk, np.arange(L)) / L) @ xx
                C.close(r, [[z.real, z.imag] for z in F], "rfft:%s:%s" % (full, L % 2), 1e-7, 1e-7)
        # detrend
        if n >= 3:
            C.begin("detrending", x=x)
            r = C.call("detrend", lambda: df.select(pds.detrend("x").alias("l"), pds.detrend("x", method="mean").alias("m")))
            if r is not None:
                t = np.arange(n)
                A = np.c_[t, np.ones(n)]
                co = np.linalg.lstsq(A, x, rcond=None)[0]
                C.close(r["l"], x - A @ co, "detrend:linear", 1e-7, 1e-8)
                C.close(r["m"], x - x.mean(), "detrend:mean", 1e-7, 1e-8)
            if it % 4 == 0:
                xn = [None if i == 1 or i % 7 == 5 else float(v) for i, v in enumerate(x)]
                if sum(v is not None for v in xn) >= 2:
                    C.begin("detrending with missing values", x=xn)
                    r = C.call("detrend:nulls", lambda: pl.DataFrame({"x": xn}).select(pds.detrend("x").alias("l"), pds.detrend("x", method="mean").alias("m")))
                    if r is not None:
                        mk = np.array([v is not None for v in xn])
                        co = np.linalg.lstsq(A[mk], x[mk], rcond=None)[0]
                        C.close(r["l"], [None if v is None else v - float(A[i] @ co) for i, v in enumerate(xn)], "detrend:linear:nulls", 1e-7, 1e-8)
                        C.close(r["m"], [None if v is None else v - x[mk].mean() for v in xn], "detrend:mean:nulls", 1e-7, 1e-8)
