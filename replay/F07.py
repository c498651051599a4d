import numpy as np, polars as pl, math
import scipy.stats as st
import polars_ds as pds
from polars_ds.exprs import stats as S
RULE = "column pairs of 2..120 values with positive weights: continuous, heavily tied, integer, negative, reversed, with missing / NaN rows for Kendall's tau; the oracle enumerates pairs or applies the definition; distinct by (clause, input)"


def tau_b(x, y):
    sx, sy = np.sign(x[:, None] - x[None, :]), np.sign(y[:, None] - y[None, :])
    iu = np.triu_indices(len(x), 1)
    num = (sx * sy)[iu].sum()
    d = math.sqrt((sx[iu] != 0).sum()) * math.sqrt((sy[iu] != 0).sum())
    return num / d if d else math.nan


def run(C):
    rng = C.rng
    it = 0
    one = lambda df, e: df.select(e.alias("o"))["o"][0]
    while C.time_ok() and it < (4000 if not C.thorough else 80000):
        it += 1
        n = int(rng.choice([2, 3, 4, 7, 16, 33, 120]))
        kind = it % 5
        x = rng.normal(0, 2, n)
        y = .5 * x + rng.normal(0, 1, n)
        if kind == 1:
            x, y = rng.integers(0, 4, n).astype(float), rng.integers(0, 3, n).astype(float)
        elif kind == 2:
            x, y = rng.integers(-3, 4, n).astype(float), rng.normal(0, 1, n)
        elif kind == 3:
            y = -x
        w = rng.uniform(.1, 3, n)
        df = pl.DataFrame({"x": x, "y": y, "w": w})
        inp = dict(x=x, y=y, w=w)
        C.begin("weighted mean, variance, covariance, correlation and cosine follow their formulas", **inp)
        W = w.sum()
        mx, my = (w * x).sum() / W, (w * y).sum() / W
        cxx, cyy, cxy = (w * (x - mx) ** 2).sum(), (w * (y - my) ** 2).sum(), (w * (x - mx) * (y - my)).sum()
        C.close(one(df, S.weighted_mean("x", "w")), mx, "wmean", 1e-8, 1e-9)
        C.close(one(df, S.weighted_mean("x", pl.col("w") / pl.col("w").sum(), is_normalized=True)), mx, "wmean:norm", 1e-8, 1e-9)
        C.close(one(df, S.weighted_var("x", "w")), cxx / W, "wvar", 1e-8, 1e-9)
        f = rng.integers(1, 6, n)
        d2 = df.with_columns(f=pl.Series(f))
        if f.sum() > 1:
            C.close(one(d2, S.weighted_var("x", "f", freq_weights=True)), np.var(np.repeat(x, f), ddof=1), "wvar:freq", 1e-8, 1e-9)
        C.close(one(df, S.weighted_cov("x", "y", pl.col("w"))), cxy / W, "wcov", 1e-8, 1e-9)
        if cxx > 1e-6 and cyy > 1e-6:
            C.close(one(df, S.weighted_corr("x", "y", "w")), cxy / math.sqrt(cxx * cyy), "wcorr", 1e-7, 1e-8)
        if (x @ x) > 1e-9 and (y @ y) > 1e-9:
            C.close(one(df, S.cosine_sim("x", "y")), x @ y / math.sqrt((x @ x) * (y @ y)), "cos", 1e-8, 1e-9)
            C.close(one(df, S.weighted_cosine_sim("x", "y", "w")), (w * x * y).sum() / math.sqrt((w * x * x).sum() * (w * y * y).sum()), "wcos", 1e-8, 1e-9)
        C.begin("harmonic and geometric means of positive values, plain and weighted", **inp)
        z = np.abs(x) + .1
        d3 = pl.DataFrame({"z": z, "w": w, "nw": w / W})
        C.case_input["z"] = z
        C.close(one(d3, S.hmean("z")), n / (1 / z).sum(), "hmean", 1e-8, 0)
        C.close(one(d3, S.gmean("z")), math.exp(np.log(z).mean()), "gmean", 1e-8, 0)
        C.close(one(d3, S.weighted_hmean("z", "w")), W / (w / z).sum(), "whmean", 1e-6, 0)
        C.close(one(d3, S.weighted_hmean("z", "nw", is_normalized=True)), W / (w / z).sum(), "whmean:norm", 1e-6, 0)
        C.close(one(d3, S.weighted_gmean("z", "w")), math.exp((w * np.log(z)).sum() / W), "wgmean", 1e-8, 0)
        C.close(one(d3, S.weighted_gmean("z", "nw", is_normalized=True)), math.exp((w * np.log(z)).sum() / W), "wgmean:norm", 1e-8, 0)
        C.begin("Kendall's tau-b counts concordant and discordant pairs, missing rows dropped", **inp)
        xs, ys = x.tolist(), y.tolist()
        if it % 3 == 0:
            for q in (xs, ys):
                for j in range(n):
                    if rng.random() < .15:
                        q[j] = [None, math.nan][rng.integers(2)]
        if it % 7 == 0:
            xs[0] = math.inf
        C.case_input = dict(x=xs, y=ys)
        keep = [j for j in range(n) if xs[j] is not None and ys[j] is not None and not math.isnan(xs[j]) and not math.isnan(ys[j])]
        kx, ky = np.array([min(xs[j], 1e300) for j in keep]), np.array([ys[j] for j in keep])
        dk = pl.DataFrame({"x": xs, "y": ys}, schema={"x": pl.Float64, "y": pl.Float64})
        r = C.call("kendall:call", one, dk, S.kendall_tau("x", "y"))
        if r is not None:
            C.close(r, tau_b(kx, ky) if len(keep) > 1 else math.nan, "kendall", 1e-9, 1e-12)
            C.close(one(dk, S.corr("x", "y", method="kendall")), r, "corr:kendall")
        C.begin("xi correlation is one minus the normalised rank variation", **inp)
        if len(np.unique(x)) == n and len(np.unique(y)) > 1:
            o = np.argsort(x)
            yo = y[o]
            rr = np.array([(y <= v).sum() for v in yo])
            ll = np.array([(y >= v).sum() for v in yo])
            xi = 1 - n * np.abs(np.diff(rr)).sum() / (2 * (ll * (n - ll)).sum())
            C.close(one(df, S.xi_corr("x", "y")), xi, "xi", 1e-9, 1e-12)
            C.close(one(df, S.corr("x", "y", method="xi")), xi, "corr:xi", 1e-9, 1e-12)
            r = one(df, S.xi_corr("x", "y", return_p=True))
            C.close(r["statistic"], xi, "xi:stat", 1e-9, 1e-12)
            C.close(r["pvalue"], math.nan if n < 30 else 2 * st.norm.sf(abs(xi) * math.sqrt(n) / math.sqrt(.4)), "xi:p", 1e-6, 1e-9)
        if it % 4 == 0 and n > 2:
            q = rng.integers(0, max(2, n // 2), n).astype(float)
            g = rng.normal(0, 1, n + 1)
            v = g[q.astype(int)]
            C.begin("xi correlation with ties that cannot matter", x=q, y=v)
            if len(np.unique(v)) > 1:
                vo = v[np.argsort(q, kind="stable")]
                rr, ll = np.array([(v <= z).sum() for z in vo]), np.array([(v >= z).sum() for z in vo])
                xi = 1 - n * np.abs(np.diff(rr)).sum() / (2 * (ll * (n - ll)).sum())
                C.close(one(pl.DataFrame({"x": q, "y": v}), S.xi_corr("x", "y", seed=it)), xi, "xi:ties", 1e-9, 1e-12)
        if it % 50 == 0:
            q = rng.permutation(1500).astype(float)
            v = q * rng.choice([-1, 1]) + rng.normal(0, rng.choice([1, 100, 1000]), 1500)
            C.begin("the p value of a strong xi correlation", seed=C.seed, it=it)
            rr = np.argsort(np.argsort(v[np.argsort(q)])) + 1.
            xi = 1 - 3 * np.abs(np.diff(rr)).sum() / (1500. ** 2 - 1)
            r = one(pl.DataFrame({"x": q, "y": v}), S.xi_corr("x", "y", return_p=True))
            C.close(r["statistic"], xi, "xi:large", 1e-9, 1e-12)
            w = 2 * st.norm.sf(abs(xi) * math.sqrt(1500) / math.sqrt(.4))
            C.ok(w < 1e-290 and r["pvalue"] < 1e-280 or w >= 1e-290 and abs(math.log(r["pvalue"]) - math.log(w)) < 1e-6 * (1 + abs(math.log(w))), "xi:large:p", r["pvalue"], w)
        C.begin("biweight midcorrelation follows its formula", **inp)
        if n >= 7:
            c = float(rng.choice([9., 6., 3.]))
            C.case_input["c"] = c
            def part(v):
                m = np.median(v)
                mad = np.median(np.abs(v - m))
                if mad < 1e-6:
                    return None
                u = (v - m) / (c * mad)
                if (np.abs(np.abs(u) - 1) < 1e-9).any():
                    return None
                return (v - m) * (1 - u ** 2) ** 2 * (np.abs(u) < 1)
            p, q = part(x), part(y)
            if p is not None and q is not None and p @ p > 1e-9 and q @ q > 1e-9:
                C.close(one(df, S.bicor("x", "y", c=c)), p @ q / math.sqrt((p @ p) * (q @ q)), "bicor", 1e-8, 1e-9)
        C.begin("Pearson and Spearman dispatch", **inp)
        if n > 2 and np.std(x) > 1e-6 and np.std(y) > 1e-6:
            C.close(one(df, S.corr("x", "y")), np.corrcoef(x, y)[0, 1], "corr:pearson", 1e-7, 1e-8)
            C.close(one(df, S.corr("x", "y", method="spearman")), st.spearmanr(x, y).statistic, "corr:spearman", 1e-7, 1e-8)
        C.raises("corr:unknown", lambda: S.corr("x", "y", method="nope"))
        C.begin("winsorizing clips at the two quantiles", **inp)
        lo, hi = float(rng.choice([.05, .1, .25])), float(rng.choice([.75, .9, .95]))
        method = ["nearest", "higher", "lower", "midpoint", "linear"][it % 5]
        C.case_input.update(q_low=lo, q_high=hi, method=method)
        a, b = df["x"].quantile(lo, interpolation=method), df["x"].quantile(hi, interpolation=method)
        C.close(df.select(S.winsorize("x", lo, hi, method))["x"], np.clip(x, a, b), "winsorize", 1e-12, 0)
