import numpy as np, polars as pl, math
import scipy.stats as st
import polars_ds as pds
import common
RULE = "two samples / grouped samples of 2..200 values: continuous, heavily tied, constant, integer, with missing and non-finite entries where the test drops them, all alternatives; oracle: scipy.stats, direct enumeration for the U and KS statistics, closed-form p values; distinct by (clause, input)"


def sample(rng, n, kind):
    if kind == 0:
        return rng.normal(rng.uniform(-1, 1), rng.uniform(.5, 3), n)
    if kind == 1:
        return rng.integers(0, 4, n).astype(float)
    if kind == 2:
        return rng.choice([-1., 1.], n)
    if kind == 3:
        return rng.exponential(2., n)
    return np.round(rng.normal(0, 1, n), 1)


def dirty(rng, x, on):
    """the same finite values with missing / non-finite ones put in"""
    if not on:
        return list(map(float, x))
    out = []
    for v in x:
        while rng.random() < .15:
            out.append([None, math.nan, math.inf, -math.inf][rng.integers(4)])
        out.append(float(v))
    out.append([None, math.nan, math.inf][rng.integers(3)])
    return out


def frame(a, b):
    n = max(len(a), len(b))
    return pl.DataFrame({"a": a + [None] * (n - len(a)), "b": b + [None] * (n - len(b))}, schema={"a": pl.Float64, "b": pl.Float64})


def one(df, e):
    return df.select(e.alias("o"))["o"].struct.unnest().row(0)


def normal_ok(C, r, f, zs, zk, ku):
    """the finding in KNOWN-FINDINGS.txt is exactly: for a negative denominator the cube root is taken of its absolute value"""
    n = len(f)
    e, var = 3 * (n - 1) / (n + 1), 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    rb = 6 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    A = 6 + 8 / rb * (2 / rb + math.sqrt(1 + 4 / rb ** 2))
    den = 1 + (ku - e) / math.sqrt(var) * math.sqrt(2 / (A - 4))
    if abs(den) < 1e-3:
        return
    key = "normal"
    want = (zs * zs + zk * zk, math.exp(-(zs * zs + zk * zk) / 2))
    if den < 0:
        t = 2 / (9 * A)
        zw = (1 - t - ((1 - 2 / A) / abs(den)) ** (1 / 3)) / math.sqrt(t)
        if common.allclose(r, (zs * zs + zw * zw, math.exp(-(zs * zs + zw * zw) / 2)), 1e-5, 1e-9):
            key = "normal:negative-denominator"
    C.close(r, want, key, 1e-5, 1e-9)


def tail(C, p, w, key, tol=1e-6):
    """small p values agree in their order of magnitude too"""
    if p is not None and w > 1e-290 and not (isinstance(p, float) and math.isnan(p)):
        C.ok(p > 0 and abs(math.log(p) - math.log(w)) <= tol * (1 + abs(math.log(w))), key, p, w)


def run(C):
    rng = C.rng
    f = np.array([-1.] * 99 + [1.] * 101)      # the specific input of the known finding
    C.begin("omnibus normality test", values="99 times -1, 101 times 1")
    r = C.call("normal:call", one, pl.DataFrame({"a": f}), pds.normal_test("a"))
    if r is not None:
        normal_ok(C, r, f, st.skewtest(f).statistic, st.kurtosistest(f).statistic, st.kurtosis(f, fisher=False))
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 60000):
        it += 1
        k1, k2 = int(rng.integers(5)), int(rng.integers(5))
        n1 = int(rng.choice([2, 3, 5, 12, 29, 30, 31, 80, 200]))
        n2 = int(rng.choice([2, 3, 5, 12, 29, 30, 31, 80, 200]))
        x, y = sample(rng, n1, k1), sample(rng, n2, k2)
        if it % 13 == 0:
            y = np.sort(y)
        if it % 11 == 0:
            x = x + rng.choice([2., -2., 20., 400.])
        if it % 37 == 0:
            x, y = np.round(rng.normal(0, 1, 900) + rng.uniform(0, 6), 3), np.round(rng.normal(0, 1, 900), 3)
            n1 = n2 = 900
        if it % 17 == 0:
            x = np.concatenate([x, np.full(rng.integers(1, 5), max(x.max(), y.max()))])
        alt = ["two-sided", "less", "greater"][it % 3]
        bad = it % 4 == 0
        a, b = dirty(rng, x, bad), dirty(rng, y, bad)
        df = frame(a, b)
        inp = dict(a=a, b=b, alternative=alt)

        C.begin("Welch's t test on the finite values", **inp)
        if np.var(x) + np.var(y) > 1e-9:
            w = st.ttest_ind(x, y, equal_var=False, alternative=alt)
            r = C.call("welch:call", one, df, pds.ttest_ind("a", "b", alternative=alt, equal_var=False))
            if r is not None:
                C.close(r, (w.statistic, w.pvalue), "welch", 1e-6, 1e-9)
                tail(C, r[1], w.pvalue, "welch:tail")
            r = C.call("welch_stats:call", one, df, pds.ttest_ind_from_stats("a", mean=float(np.mean(y)), var=float(np.var(y, ddof=1)), cnt=len(y), alternative=alt, equal_var=False))
            if r is not None:
                C.close(r, (w.statistic, w.pvalue), "welch_stats", 1e-6, 1e-9)
        C.begin("one-sample t test on the finite values", **inp)
        if np.var(x) > 1e-9:
            mu = float(rng.normal())
            C.case_input["pop_mean"] = mu
            w = st.ttest_1samp(x, mu, alternative=alt)
            r = C.call("t1:call", one, df, pds.ttest_1samp("a", mu, alternative=alt))
            if r is not None:
                C.close(r, (w.statistic, w.pvalue), "t1", 1e-6, 1e-9)
                tail(C, r[1], w.pvalue, "t1:tail")
        C.begin("Student's t test on two complete samples of one length", **inp)
        m = min(n1, n2)
        d2 = pl.DataFrame({"a": x[:m], "b": y[:m]})
        if np.var(x[:m]) + np.var(y[:m]) > 1e-9:
            w = st.ttest_ind(x[:m], y[:m], equal_var=True, alternative=alt)
            r = C.call("student:call", one, d2, pds.ttest_ind("a", "b", alternative=alt, equal_var=True))
            if r is not None:
                C.close(r, (w.statistic, w.pvalue), "student", 1e-6, 1e-9)
            r = C.call("student_stats:call", one, d2, pds.ttest_ind_from_stats("a", mean=float(np.mean(y[:m])), var=float(np.var(y[:m], ddof=1)), cnt=m, alternative=alt, equal_var=True))
            if r is not None:
                C.close(r, (w.statistic, w.pvalue), "student_stats", 1e-6, 1e-9)

        C.begin("Mann-Whitney U counts the pairs won, ties half, with the tie-corrected p value", **inp)
        U = (x[:, None] > y[None, :]).sum() + .5 * (x[:, None] == y[None, :]).sum()
        r = C.call("mwu:call", one, df, pds.mann_whitney_u("a", "b", alternative=alt))
        if r is not None:
            C.close(r[0], U, "mwu:u", 1e-9, 1e-9)
            allv = np.concatenate([x, y])
            N = len(allv)
            _, c = np.unique(allv, return_counts=True)
            c = c.astype(float)
            s = math.sqrt(max(0., len(x) * len(y) / 12 * ((N + 1) - (c ** 3 - c).sum() / (N * (N - 1)))))
            mu = len(x) * len(y) / 2
            uu = {"two-sided": max(U, 2 * mu - U), "greater": U, "less": 2 * mu - U}[alt]
            p = 1. if s == 0 else min(1., (2 if alt == "two-sided" else 1) * st.norm.sf((uu - mu - .5) / s))
            C.close(r[1], p, "mwu:p", 1e-6, 1e-9)
            tail(C, r[1], p, "mwu:tail")
        if it % 5 == 0:
            g = df.with_columns(g=pl.lit(1))
            o = C.call("mwu_grp:call", lambda: g.group_by("g").agg(pds.mann_whitney_u("a", "b", alternative=alt).alias("o"))["o"])
            if o is not None and r is not None:
                C.ok(o.dtype == pl.Struct and C_close(o.struct.unnest().row(0), r), "mwu_grp", str(o.dtype), "a struct per group")

        C.begin("Kolmogorov-Smirnov statistic is the largest gap between the empirical distributions", **inp)
        alpha = float(rng.choice([.01, .05, .1]))
        r = C.call("ks:call", one, df, pds.ks_2samp("a", "b", alpha=alpha))
        if r is not None:
            if len(x) < 30 or len(y) < 30:
                C.ok(r[0] == 0 and math.isnan(r[1]), "ks:small", r, (0., math.nan))
            else:
                z = np.concatenate([x, y])
                D = max(abs((x <= v).mean() - (y <= v).mean()) for v in z)
                C.close(r, (D, math.sqrt(-math.log(alpha / 2) / 2) * math.sqrt((len(x) + len(y)) / (len(x) * len(y)))), "ks", 1e-9, 1e-12)
        if it % 3 == 0:
            lab = rng.integers(0, 2, len(a))
            d3 = pl.DataFrame({"t": lab, "v": a}, schema={"t": pl.Int64, "v": pl.Float64})
            f = np.array([np.nan if v is None else v for v in a], dtype=float)
            z1, z0 = f[(lab == 1) & np.isfinite(f)], f[(lab == 0) & np.isfinite(f)]
            if len(z1) >= 30 and len(z0) >= 30:
                r = C.call("ksb:call", one, d3, pds.ks_2samp("t", "v", alpha=alpha, is_binary=True))
                D = max(abs((z1 <= v).mean() - (z0 <= v).mean()) for v in np.concatenate([z1, z0]))
                if r is not None:
                    C.close(r[0], D, "ks:binary", 1e-9, 1e-12)

        C.begin("omnibus normality test", **inp)
        if len(x) >= 20 and np.var(x) > 1e-6:
            f = x
            sk, ku = st.skew(f), st.kurtosis(f, fisher=False)
            zs = st.skewtest(f).statistic
            zk = st.kurtosistest(f).statistic
            r = C.call("normal:call", one, df, pds.normal_test("a"))
            if r is not None and abs(sk) > 1e-9:
                normal_ok(C, r, f, zs, zk, ku)
        if len(x) < 20 and it % 4 == 0:
            C.raises("normal:short", one, df, pds.normal_test("a"))

        C.begin("ANOVA F statistic over the groups", **inp)
        k = int(rng.integers(2, 6))
        n = int(rng.integers(2 * k, 60))
        lab = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
        rng.shuffle(lab)
        u, v = sample(rng, n, k1) + lab * rng.choice([0, .5]), sample(rng, n, k2)
        C.case_input = dict(group=lab.tolist(), u=u.tolist(), v=v.tolist())
        d4 = pl.DataFrame({"g": lab if it % 2 else [f"c{i}" for i in lab], "u": u, "v": v})
        ws = []
        for q in (u, v):
            gm = q.mean()
            ssb = sum((lab == i).sum() * (q[lab == i].mean() - gm) ** 2 for i in range(k))
            ssw = sum(((q[lab == i] - q[lab == i].mean()) ** 2).sum() for i in range(k))
            F = (ssb / (k - 1)) / (ssw / (n - k)) if ssw > 1e-9 else None
            ws.append(None if F is None else (F, st.f.sf(F, k - 1, n - k)))
        if None not in ws:
            r = C.call("f1:call", one, d4, pds.f_test("u", group="g"))
            if r is not None:
                C.close(r, ws[0], "f_test", 1e-6, 1e-9)
            r = C.call("f2:call", lambda: d4.select(pds.f_test("u", "v", group="g").alias("o"))["o"].struct.unnest().rows())
            if r is not None:
                C.close(r, ws, "f_test:multi", 1e-6, 1e-9)

        C.begin("chi-squared statistic of the contingency table", **inp)
        p, q = rng.integers(0, k, n), rng.integers(0, int(rng.integers(2, 5)), n)
        C.case_input = dict(p=p.tolist(), q=q.tolist())
        d5 = pl.DataFrame({"p": [f"a{i}" for i in p], "q": q})
        up, uq = np.unique(p), np.unique(q)
        if len(up) > 1 and len(uq) > 1:
            O = np.array([[((p == i) & (q == j)).sum() for j in uq] for i in up])
            w = st.chi2_contingency(O, correction=False)
            r = C.call("chi2:call", one, d5, pds.chi2("p", "q"))
            if r is not None:
                C.close(r, (w.statistic, w.pvalue), "chi2", 1e-6, 1e-9)
                tail(C, r[1], w.pvalue, "chi2:tail")
            r = C.call("chi2full:call", lambda: d5.select(pds.chi2("p", "q", return_full=True).alias("o"))["o"].struct.unnest())
            if r is not None:
                C.ok(len(r) == O.size and (r["dof"] == w.dof).all(), "chi2:dof", r["dof"].to_list(), w.dof)
                C.close(r["statistic"].to_list(), [w.statistic] * len(r), "chi2:full", 1e-6, 1e-9)
                C.close([r2[1] for r2 in sorted(zip(zip(r["p"], r["q"]), r["E[freq]"]))],
                        [r2[1] for r2 in sorted(((f"a{i}", int(j)), w.expected_freq[a_, b_]) for a_, i in enumerate(up) for b_, j in enumerate(uq))], "chi2:expected", 1e-9, 1e-9)


def C_close(a, b):
    from common import allclose
    return allclose(a, b, 1e-9, 1e-12)
