import numpy as np, polars as pl, math
import scipy.stats as st
import polars_ds as pds
from polars_ds.exprs import stats as S
RULE = "lengths 0..5000, bounds, probabilities and rates drawn at random, seeds fixed; checked on every draw: length, declared and returned dtype, support of the distribution, seed determinism; a 6-sigma test of mean and variance; distinct by (clause, input)"


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (2500 if not C.thorough else 50000):
        it += 1
        n = int(rng.choice([1, 2, 7, 100, 1500]))
        seed = int(rng.integers(0, 2 ** 40))
        df = pl.DataFrame({"i": np.arange(n)})

        def draw(key, e, e2=None):
            o = C.call(key + ":call", lambda: df.select("i", e.alias("o")))
            if o is None:
                return None
            lz = df.lazy().select("i", e.alias("o")).collect_schema()["o"]
            C.ok(o["o"].dtype == lz, key + ":schema", str(o["o"].dtype), str(lz))
            C.ok(len(o) == n and o["o"].null_count() == 0, key + ":len", len(o), n)
            C.ok(o["o"].equals(df.select("i", e.alias("o"))["o"]), key + ":seed", "two draws with one seed differ", "equal draws")
            return o["o"]

        def moments(key, x, mu, var):
            if len(x) >= 1500 and var > 0:
                x = np.asarray(x, float)
                C.ok(abs(x.mean() - mu) < 6.5 * math.sqrt(var / len(x)), key + ":mean", x.mean(), mu)
                C.ok(.5 * var < x.var() < 2. * var, key + ":var", x.var(), var)

        def law(key, x, cdf):
            if len(x) >= 1500:
                D = st.kstest(np.asarray(x, float), cdf).statistic * math.sqrt(len(x))
                C.ok(D < 3.6, key + ":law", D, "the distribution asked for")
                C.ok(len(set(x)) > len(x) * .9, key + ":distinct", len(set(x)), len(x))

        lo = float(rng.normal())
        hi = lo + float(rng.uniform(.01, 5))
        C.begin("uniform numbers lie in [lower, upper)", n=n, seed=seed, lower=lo, upper=hi)
        x = draw("uniform", S.random(lo, hi, seed=seed))
        if x is not None:
            C.ok(((x >= lo) & (x < hi)).all(), "uniform:range", x.min(), [lo, hi])
            moments("uniform", x, (lo + hi) / 2, (hi - lo) ** 2 / 12)
            law("uniform", x, st.uniform(lo, hi - lo).cdf)
        a, b = int(rng.integers(-50, 50)), 0
        b = a + int(rng.integers(1, 9))
        C.begin("random integers lie in [lower, upper) whatever the order of the bounds", n=n, seed=seed, lower=a, upper=b)
        sw = it % 4 == 0
        ex = (lambda v: pl.lit(v)) if it % 3 == 0 else (lambda v: v)
        C.case_input["as_expr"] = it % 3 == 0
        x = draw("int", S.random_int(ex(b), ex(a), seed=seed) if sw else S.random_int(ex(a), ex(b), seed=seed))
        if x is not None:
            C.ok(((x >= a) & (x < b)).all(), "int:range", [x.min(), x.max()], [a, b])
            C.ok(len(x) < 1500 or x.n_unique() == b - a, "int:support", x.n_unique(), b - a)
            if len(x) >= 1500:
                cnt = np.bincount(x.to_numpy() - a, minlength=b - a)
                C.ok((np.abs(cnt - n / (b - a)) < 6.5 * math.sqrt(n / (b - a))).all(), "int:law", cnt.tolist())
        if it % 3:
            C.raises("int:empty", lambda: S.random_int(a, a, seed=seed))
        x = draw("int:same", S.random_int(pl.lit(a), pl.lit(a), seed=seed))
        if x is not None:
            C.ok((x == a).all(), "int:same", x.head(3).to_list(), a)
        mi, ma = int(rng.integers(0, 6)), int(rng.integers(0, 6))
        C.begin("random strings are alphanumeric with a length between the sizes, inclusive", n=n, seed=seed, sizes=[mi, ma])
        x = draw("str", S.random_str(mi, ma, seed=seed))
        if x is not None:
            L = x.str.len_bytes()
            C.ok(((L >= min(mi, ma)) & (L <= max(mi, ma))).all(), "str:len", [L.min(), L.max()], [mi, ma])
            C.ok(x.str.contains("^[a-zA-Z0-9]*$").all(), "str:chars", x.head(3).to_list())
            C.ok(n < 1500 or L.n_unique() == abs(mi - ma) + 1, "str:support", L.n_unique(), abs(mi - ma) + 1)
            if min(mi, ma) >= 2 and n >= 1500:
                C.ok(len(set("".join(x.to_list()))) == 62, "str:letters", sorted(set("".join(x.to_list()))), 62)
        m, p = int(rng.integers(1, 30)), float(rng.uniform(0, 1))
        C.begin("binomial numbers lie in 0..n with mean np and variance np(1-p)", n=n, seed=seed, trials=m, p=p)
        x = draw("binom", S.random_binomial(m, p, seed=seed))
        if x is not None:
            C.ok(((x >= 0) & (x <= m)).all(), "binom:range", [x.min(), x.max()], [0, m])
            if m * p * (1 - p) > .3:
                moments("binom", x, m * p, m * p * (1 - p))
        lam = 1. if it % 3 == 0 else float(rng.uniform(.1, 5))
        C.begin("exponential numbers are positive with mean 1/lambda", n=n, seed=seed, lam=lam)
        x = draw("exp", S.random_exp(lam, seed=seed))
        if x is not None:
            C.ok((x >= 0).all(), "exp:range", x.min(), 0)
            moments("exp", x, 1 / lam, 1 / lam ** 2)
            law("exp", x, st.expon(scale=1 / lam).cdf)
        mu, sd = (0., 1.) if it % 3 == 0 else (float(rng.normal()), float(rng.uniform(.1, 4)))
        C.begin("normal numbers have the mean and deviation asked for", n=n, seed=seed, mean=mu, std=sd)
        x = draw("normal", S.random_normal(mu, sd, seed=seed))
        if x is not None:
            moments("normal", x, mu, sd * sd)
            law("normal", x, st.norm(mu, sd).cdf)
        if it % 10 == 0 and n >= 100:
            C.begin("without a seed two draws differ", n=n)
            for key, f in (("random", lambda: S.random(lo, hi)), ("random_int", lambda: S.random_int(0, 1000)), ("random_str", lambda: S.random_str(5, 9)), ("random_exp", lambda: S.random_exp(1.)), ("random_normal", lambda: S.random_normal(0., 1.)), ("random_binomial", lambda: S.random_binomial(100, .5))):
                C.ok(not df.select("i", f().alias("o")).equals(df.select("i", f().alias("o"))), key + ":noseed")
            for key, f in (("random", lambda q: S.random(lo, hi, seed=q)), ("random_int", lambda q: S.random_int(0, 1000, seed=q)), ("random_str", lambda q: S.random_str(5, 9, seed=q)), ("random_exp", lambda q: S.random_exp(1., seed=q)), ("random_normal", lambda q: S.random_normal(0., 1., seed=q)), ("random_binomial", lambda q: S.random_binomial(100, .5, seed=q))):
                C.ok(not df.select("i", f(seed).alias("o")).equals(df.select("i", f(seed + 1).alias("o"))), key + ":otherseed")
        C.begin("noise is added to the present values only, within its range, in the column's dtype", n=n, seed=seed)
        v = rng.normal(0, 1, n).tolist()
        for j in range(n):
            if rng.random() < .2:
                v[j] = None
        dt = [pl.Float64, pl.Float32][it % 2]
        eps, pos = float(rng.uniform(.01, 2)), bool(it % 3 == 0)
        C.case_input.update(v=v, dtype=str(dt), epsilon=eps, positive=pos)
        d = pl.DataFrame({"v": pl.Series(v, dtype=pl.Float64).cast(dt)})
        tol = 0 if dt == pl.Float64 else 1e-5
        for key, e in (("perturb", S.perturb("v", eps, pos, seed=seed)), ("noise", S.add_noise("v", "uniform", epsilon=eps, positive=pos, seed=seed))):
            o = C.call(key + ":call", lambda: d.select(e.alias("o"))["o"])
            if o is not None:
                C.ok(o.dtype == dt and (o.is_null() == d["v"].is_null()).all(), key + ":shape", str(o.dtype), str(dt))
                z = (o - d["v"]).drop_nulls().cast(pl.Float64)
                l, h = (0., eps) if pos else (-eps / 2, eps / 2)
                C.ok(((z >= l - tol - 1e-9) & (z <= h + tol + 1e-9)).all(), key + ":range", [z.min(), z.max()], [l, h])
                if len(z) > 1000:
                    C.ok(st.kstest(z.to_numpy(), st.uniform(l, h - l).cdf).statistic * math.sqrt(len(z)) < 3.6, key + ":law")
                C.ok(o.equals(d.select(e.alias("o"))["o"]), key + ":seed")
        sd = float(rng.uniform(.1, 3))
        for key, e in (("jitter", S.jitter("v", sd, seed=seed)), ("gnoise", S.add_noise("v", "gaussian", std=sd, seed=seed))):
            o = C.call(key + ":call", lambda: d.select(e.alias("o"))["o"])
            if o is not None:
                C.ok(o.dtype == dt and (o.is_null() == d["v"].is_null()).all(), key + ":shape", str(o.dtype), str(dt))
                z = (o - d["v"]).drop_nulls().to_numpy()
                C.ok(o.equals(d.select(e.alias("o"))["o"]), key + ":seed")
                if len(z) > 1000:
                    C.ok(st.kstest(z.astype(float), st.norm(0, sd).cdf).statistic * math.sqrt(len(z)) < 3.6, key + ":law")
                if len(z) > 1000:
                    C.ok(abs(z.mean()) < 6.5 * sd / math.sqrt(len(z)) and .5 < z.std() / sd < 1.5, key + ":moments", [z.mean(), z.std()], [0, sd])
        C.ok(d.select(S.jitter("v", 0.0).alias("o"))["o"].equals(d["v"]), "jitter:zero")
        C.begin("random nulls keep every surviving value and the original nulls", n=n, seed=seed)
        pct = float(rng.uniform(.05, .95))
        C.case_input.update(v=v, pct=pct)
        o = C.call("null:call", lambda: d.select(S.random_null("v", pct, seed=seed).alias("o"))["o"])
        if o is not None:
            C.ok(o.equals(d.select(S.random_null("v", pct, seed=seed).alias("o"))["o"]), "null:seed")
            C.ok(len(o) == n and all(q is None or q == r for q, r in zip(o, d["v"])), "null:values")
            if n >= 1500:
                k = (d["v"].is_not_null() & o.is_null()).sum() / d["v"].is_not_null().sum()
                C.ok(abs(k - pct) < 6.5 * math.sqrt(pct * (1 - pct) / d["v"].is_not_null().sum()), "null:rate", k, pct)
        for q in (0., 1., -1., 2.):
            C.raises("null:bad", lambda: S.random_null("v", q))
        if it % 10 == 0:
            for key, f in (("perturb", lambda: S.perturb("i", 1.)), ("jitter", lambda: S.jitter("i", 1.))):
                C.raises(key + ":integers", lambda: df.select(f()))
