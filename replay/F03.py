import numpy as np, polars as pl, math
from collections import Counter, defaultdict
import polars_ds as pds
from polars_ds.exprs import num as NUM
RULE = "baseline and new samples of length 1..80 with ties, missing values, NaN and infinities, as columns, Python lists and Series; custom breakpoints; integer, float, string categories with missing ones; 0/1 targets given as columns and lists, all-one and all-zero targets, minimum leaf sizes and smoothings; oracles: textbook formulas over counts; distinct by (clause, input)"


def psi_terms(cb, ca):
    sb, sa = sum(cb), sum(ca)
    out = []
    for x, y in zip(cb, ca):
        p, q = max(x / sb, 1e-4), max(y / sa, 1e-4)
        out.append((p, q, (p - q) * math.log(p / q)))
    return out


def bins(vals, bps):
    """counts of values in (-inf, b0], (b0, b1], ..., (b_last, inf)"""
    c = [0] * (len(bps) + 1)
    for v in vals:
        c[sum(1 for b in bps if b < v)] += 1
    return c


def dirty(rng, v):
    out = [float(x) for x in v]
    for i in range(len(out)):
        if rng.random() < .1:
            out[i] = rng.choice([math.nan, math.inf, -math.inf]).item() if rng.random() < .6 else None
    return out


def fin(v):
    return [x for x in v if x is not None and math.isfinite(x)]


def woe_ref(val, t):
    g, c = defaultdict(float), Counter()
    for v, y in zip(val, t):
        if v is None or y is None:
            continue
        c[v] += 1
        g[v] += y
    G, N = sum(g.values()), sum(c.values())
    out = {}
    for v in c:
        gp, bp = (g[v] + 1) / (G + 2), (c[v] - g[v] + 1) / (N - G + 2)
        out[v] = (math.log(gp / bp), (gp - bp) * math.log(gp / bp))
    return out


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (4000 if not C.thorough else 100000):
        it += 1
        n = int(rng.choice([1, 2, 3, 6, 12, 30, 80]))
        m = int(rng.choice([1, 2, 3, 6, 12, 30, 80]))
        gen = (lambda k: rng.normal(size=k)) if it % 2 else (lambda k: rng.integers(-3, 4, k).astype(float))
        new, base = gen(n), gen(m)
        if it % 3 == 0:
            new, base = dirty(rng, new), dirty(rng, base)
            if not fin(new) or not fin(base):
                continue
        else:
            new, base = new.tolist(), base.tolist()
        L = max(n, m)
        # custom breakpoints
        bps = sorted({float(x) for x in (rng.integers(-3, 4, int(rng.integers(1, 5))) if it % 2 == 0 else rng.normal(size=int(rng.integers(1, 5))))})
        colform = it % 2 == 0
        dfn = pl.DataFrame({"new": new + [None] * (L - n), "base": base + [None] * (L - m)}, schema={"new": pl.Float64, "base": pl.Float64})
        if it % 5 == 0 and L > 2:
            dfn = pl.concat([dfn[:L // 2], dfn[L // 2:]], rechunk=False)
        a, b = ("new", "base") if colform else (new, pl.Series(base, dtype=pl.Float64) if it % 4 == 1 else base)
        C.begin("PSI report over given breakpoints", new=new, baseline=base, breakpoints=bps, columns=colform)
        r = C.call("psi_bp:call", lambda: dfn.select(pds.psi_w_breakpoints(a, b, bps).alias("r")).unnest("r"))
        if r is not None:
            ref = psi_terms(bins(fin(base), bps), bins(fin(new), bps))
            C.close(r["<="], bps + [math.inf], "psi_bp:breaks")
            C.close(r["baseline_pct"], [x[0] for x in ref], "psi_bp:baseline", 1e-9)
            C.close(r["actual_pct"], [x[1] for x in ref], "psi_bp:actual", 1e-9)
            C.close(r["psi_bin"], [x[2] for x in ref], "psi_bp:psi", 1e-9)
        if it % 7 == 0:
            ni, bi = [int(x) for x in np.round(fin(new))], [int(x) for x in np.round(fin(base))]
            C.begin("PSI report over given breakpoints, integers", new=ni, baseline=bi, breakpoints=bps)
            r = C.call("psi_bp:int", lambda: dfn.select(pds.psi_w_breakpoints(ni, bi, bps).alias("r")).unnest("r"))
            if r is not None:
                C.close(r["psi_bin"], [x[2] for x in psi_terms(bins(bi, bps), bins(ni, bps))], "psi_bp:int", 1e-9)
        # quantile PSI
        nb = int(rng.choice([2, 3, 5, 10]))
        C.begin("PSI over baseline quantiles", new=new, baseline=base, n_bins=nb, columns=colform)
        r = C.call("psi:call", lambda: dfn.select(pds.psi(a, b, nb, return_report=True).alias("r")).unnest("r"))
        if r is not None:
            br = r["<="].to_list()
            C.ok(br == sorted(br) and br[-1] == math.inf and len(set(br)) == len(br), "psi:breaks", br)
            # the number of baseline values not above each break is the quantile count
            fb = sorted(fin(base))
            want = sorted({float(np.quantile(fb, k / nb)) for k in range(1, nb)})
            for x in br[:-1]:
                C.ok(any(abs(x - q) < 1e-9 for q in want), "psi:quantile", x, want)
            ref = psi_terms(bins(fb, br[:-1]), bins(fin(new), br[:-1]))
            C.close(r["baseline_pct"], [x[0] for x in ref], "psi:baseline", 1e-9)
            C.close(r["actual_pct"], [x[1] for x in ref], "psi:actual", 1e-9)
            C.close(r["psi_bin"], [x[2] for x in ref], "psi:terms", 1e-9)
            s = C.call("psi:sum", lambda: dfn.select(pds.psi(a, b, nb).alias("r"))["r"].to_list())
            if s is not None:
                C.close(s, [sum(x[2] for x in ref)], "psi:sum", 1e-9)
                C.ok(s[0] >= -1e-12, "psi:nonneg", s)
        # discrete PSI
        cats = ["a", "b", "c", "dd", None] if it % 2 else [1, 2, 3, 4]
        cn = [cats[int(i)] for i in rng.integers(0, len(cats), n)]
        cb = [cats[int(i)] for i in rng.integers(0, max(1, len(cats) - 1) if it % 3 else len(cats), m)]
        nulls = None in cn or None in cb
        dt = pl.String if it % 2 else pl.Int64
        C.begin("PSI of categories" + (" with missing ones" if nulls else ""), new=cn, baseline=cb)
        if it % 4 < 2 or n != m:
            e = pds.psi_discrete(pl.Series(cn, dtype=dt), pl.Series(cb, dtype=dt))
            r = C.call("psi_disc:call", lambda: pl.select(e.alias("r"))["r"].to_list())
        else:
            d3 = pl.DataFrame({"n": pl.Series(cn, dtype=dt), "b": pl.Series(cb, dtype=dt)})
            r = C.call("psi_disc:call", lambda: d3.select(pds.psi_discrete("n", "b").alias("r"))["r"].to_list())
        if r is not None:
            keys = sorted(set(cn) | set(cb), key=str)
            kn, kb = Counter(cn), Counter(cb)
            C.close(r, [sum(x[2] for x in psi_terms([kb[k] for k in keys], [kn[k] for k in keys]))], "psi_disc" + (":null" if nulls else ""), 1e-9)
            if it % 4 >= 2 and n == m:
                rp = C.call("psi_disc:report", lambda: d3.select(pds.psi_discrete("n", "b", return_report=True).alias("r"))["r"].struct.unnest())
                if rp is not None:
                    tm = {k: psi_terms([kb[j] for j in keys], [kn[j] for j in keys])[i] for i, k in enumerate(keys)}
                    if not nulls:
                        C.ok(all(p_ == q_ or p_ is None or q_ is None for p_, q_ in zip(rp["baseline_category"], rp["actual_category"])), "psi_disc:report:pairs", rp)
                        kc = [str(p_ if p_ is not None else q_) for p_, q_ in zip(rp["baseline_category"].to_list(), rp["actual_category"].to_list())]
                        C.ok(sorted(kc) == sorted(map(str, keys)), "psi_disc:report:categories", rp, keys)
                        C.close(rp["psi_bin"].to_list(), [next((x[2] for k, x in tm.items() if str(k) == v), None) for v in kc], "psi_disc:report", 1e-9)
        # WOE / IV
        t = (rng.random(n) < rng.choice([.5, .5, 0., 1.])).astype(int).tolist()
        tn = [None if rng.random() < .1 else x for x in t] if it % 4 == 0 else t
        d4 = pl.DataFrame({"c": pl.Series(cn, dtype=dt), "x": new, "t": pl.Series(tn, dtype=pl.Int64)})
        ref = woe_ref([None if v is None else str(v) for v in cn], tn)
        tt = "t" if it % 3 else tn
        C.begin("weight of evidence and information value of categories", c=cn, target=tn, as_list=not isinstance(tt, str))
        r = C.call("woe_disc:call", lambda: d4.select(pds.woe_discrete("c", tt).alias("r")).unnest("r"))
        if r is not None:
            C.close(dict(zip(r["value"], r["woe"])), {k: v[0] for k, v in ref.items()}, "woe_disc", 1e-9, 1e-12)
        r = C.call("iv_disc:call", lambda: d4.select(pds.info_value_discrete("c", tt, return_sum=False).alias("r")).unnest("r"))
        if r is not None:
            C.close(dict(zip(r["value"], r["iv"])), {k: v[1] for k, v in ref.items()}, "iv_disc", 1e-9, 1e-12)
        r = C.call("iv_sum:call", lambda: d4.select(pds.info_value_discrete("c", tt).alias("r"))["r"].to_list())
        if r is not None:
            C.close(r, [sum(v[1] for v in ref.values())], "iv_sum", 1e-9, 1e-12)
        # continuous: values that are not finite are left out together with their target
        clean = len(fin(new)) == n
        C.begin("weight of evidence and information value over quantile bins" + ("" if clean else " with invalid values"), x=new, target=tn, n_bins=nb, as_list=not isinstance(tt, str))
        r = C.call("woe:call" + ("" if clean else ":dirty"), lambda: d4.select(pds.woe("x", tt, nb).alias("r")).unnest("r"))
        if r is not None:
            fx = pl.Series([v for v in new if v is not None and math.isfinite(v)], dtype=pl.Float64)
            tk = [y for v, y in zip(new, tn) if v is not None and math.isfinite(v)]
            lab = fx.qcut(nb, left_closed=False, allow_duplicates=True).cast(pl.String).to_list()
            ref = woe_ref(lab, tk)
            C.close(dict(zip(r["value"], r["woe"])), {k: v[0] for k, v in ref.items()}, "woe", 1e-9, 1e-12)
            r = C.call("iv:call", lambda: d4.select(pds.info_value("x", tt, nb, return_sum=False).alias("r")).unnest("r"))
            if r is not None:
                C.close(dict(zip(r["value"], r["iv"])), {k: v[1] for k, v in ref.items()}, "iv", 1e-9, 1e-12)
            r = C.call("iv:sum", lambda: d4.select(pds.info_value("x", tt, nb).alias("r"))["r"].to_list())
            if r is not None:
                C.close(r, [sum(v[1] for v in ref.values())], "iv:sum", 1e-9, 1e-12)
        # target encoding
        ml, sm = int(rng.choice([1, 5, 20])), float(rng.choice([1., 10., .5]))
        C.begin("target encoding", c=cn, target=tn, min_samples_leaf=ml, smoothing=sm, as_list=not isinstance(tt, str))
        if all(y is None for y in tn):
            continue
        r = C.call("te:call", lambda: d4.select(NUM.target_encode("c", tt, ml, sm).alias("r")).unnest("r"))
        if r is not None:
            mean = np.mean([y for y in tn if y is not None])
            gg = defaultdict(list)
            for v, y in zip(cn, tn):
                if v is not None and y is not None:
                    gg[str(v)].append(y)
            w = {}
            for k, ys in gg.items():
                al = 1 / (1 + math.exp(-(len(ys) - ml) / sm))
                w[k] = al * np.mean(ys) + (1 - al) * mean
            C.close(dict(zip(r["value"], r["to"])), w, "te", 1e-9, 1e-12)
