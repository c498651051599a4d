"""Contracts of the Python functions of polars_ds that build expressions (used by exprvc.py).

Each contract names a function, the column types it is called for, and the expression its result must equal, written
here from the definition and not from the code.  `S_x` columns stand for arbitrary scalar parameters."""
import math
import polars as pl
import exprvc
from polars.plugins import register_plugin_function

TRUSTED = [
    "the axioms exprvc.py gives to Polars operators (arithmetic, comparison, when/then, filter, aggregates, shift, windows) describe the engine",
    "other Polars operators are uninterpreted functions of their inputs and options",
    "the learning transforms are read with the training frame as columns T_x of as many rows as the frame they are applied to, and take a learned value as opaque (anything that inspects one is reported undecided)",
    "pipelines, samplers and diagnosis run on stand-in frames (lib/exprfit.py) whose select / with_columns / filter compose definitions as the engine does; anything else they are asked for is reported undecided",
    "a shuffled row number is a permutation of the row numbers, the same for the same seed",
    "Python layer: columns are vectors of real numbers; arithmetic on NaN and infinities is outside the model (their selection by is_finite / is_nan is inside)",
]
c = pl.col
L = pl.lit


def S(name):
    return pl.col("S_" + name).first()


def P(sym, args, kw=None, **flags):
    return register_plugin_function(plugin_path=exprvc.SO, function_name=sym, args=[a if isinstance(a, (pl.Expr, pl.Series)) else pl.lit(a) for a in args], kwargs=kw, **flags)


OBS = {}


def ob(pid, name, fn, call, spec, types, **k):
    OBS.setdefault(pid, []).append(dict(name=name, fn=f"polars_ds.{fn}", call=call, spec=spec, types=types, **k))


def obligations(pid):
    return OBS.get(pid, [])


import polars_ds as pds
from polars_ds.exprs import metrics as M, stats as ST, ts_features as TS, num as NU, string as SR, expr_knn as KN, expr_linear as LR, expr_iter as IT

AP = {"a": "real", "p": "real"}
N = pl.len

# ------------------------------------------------------------------ M03
f = "exprs.metrics."
d = lambda: c("a") - c("p")
ob("M03", "r2", f + "query_r2", lambda: M.query_r2("a", "p"), lambda: 1 - (d() ** 2).sum() / ((c("a") - c("a").mean()) ** 2).sum(), AP)
ob("M03", "adj_r2", f + "query_adj_r2", lambda: M.query_adj_r2("a", "p", 2),
   lambda: 1 - ((d() ** 2).sum() / (N() - 2)) / (((c("a") - c("a").mean()) ** 2).sum() / (N() - 1)), AP)
ob("M03", "adj_r2 p=5", f + "query_adj_r2", lambda: M.query_adj_r2("a", "p", 5),
   lambda: 1 - ((d() ** 2).sum() * (N() - 1)) / (((c("a") - c("a").mean()) ** 2).sum() * (N() - 5)), AP, min_rows=9, pre=[lambda eng, cs: [eng.len_of("0") >= 6]])
ob("M03", "log_cosh", f + "query_log_cosh", lambda: M.query_log_cosh("a", "p"), lambda: (c("p") - c("a")).cosh().log().sum() / N(), AP)
ob("M03", "log_cosh total", f + "query_log_cosh", lambda: M.query_log_cosh("a", "p", normalize=False), lambda: (c("p") - c("a")).cosh().log().sum(), AP)
ob("M03", "huber", f + "query_hubor_loss", lambda: M.query_hubor_loss("a", "p", S("d")),
   lambda: pl.when(d().abs() > S("d")).then(S("d") * (d().abs() - S("d") / 2)).otherwise(d() * d() / 2).sum() / N(), {**AP, "S_d": "pos"})
ob("M03", "l2", f + "query_l2", lambda: M.query_l2("a", "p"), lambda: (d() ** 2).sum() / N(), AP)
ob("M03", "l2 total", f + "query_l2", lambda: M.query_l2("a", "p", normalize=False), lambda: (d() ** 2).sum(), AP)
ob("M03", "l1", f + "query_l1", lambda: M.query_l1("a", "p"), lambda: d().abs().mean(), AP)
ob("M03", "l1 total", f + "query_l1", lambda: M.query_l1("a", "p", normalize=False), lambda: d().abs().sum(), AP)
ob("M03", "l_inf", f + "query_l_inf", lambda: M.query_l_inf("a", "p"), lambda: d().abs().max(), AP)
_x = lambda x, y: P("pl_xlogy", [x, y], is_elementwise=True)
ob("M03", "log_loss", f + "query_log_loss", lambda: M.query_log_loss("b", "u"), lambda: -(_x(c("b").cast(pl.Float64), c("u")) + _x(1.0 - c("b").cast(pl.Float64), 1.0 - c("u"))).sum() / N(), {"b": "bool01", "u": "unit"})
ob("M03", "log_loss total", f + "query_log_loss", lambda: M.query_log_loss("b", "u", normalize=False), lambda: -(_x(c("b").cast(pl.Float64), c("u")) + _x(1.0 - c("b").cast(pl.Float64), 1.0 - c("u"))).sum(), {"b": "bool01", "u": "unit"})
ob("M03", "mape", f + "query_mape", lambda: M.query_mape("a", "p"), lambda: (d() / c("a")).abs().sum() / N(), {"a": "pos", "p": "real"})
ob("M03", "mape any sign", f + "query_mape", lambda: M.query_mape("a", "p"), lambda: ((c("a") - c("p")).abs() / c("a").abs()).mean(), AP)
ob("M03", "wmape", f + "query_mape", lambda: M.query_mape("a", "p", weighted=True), lambda: d().abs().sum() / c("a").abs().sum(), AP)
ob("M03", "smape", f + "query_smape", lambda: M.query_smape("a", "p"), lambda: (d().abs() / (c("a").abs() + c("p").abs())).sum() / N(), AP)
for fr in (1, 3):
    ob("M03", f"mase {fr}", f + "query_mase", lambda fr=fr: M.query_mase("a", "p", "t", fr), lambda fr=fr: d().abs().mean() / (c("t") - c("t").shift(fr)).abs().mean(), {**AP, "t": "real"})
    ob("M03", f"mase median {fr}", f + "query_mase", lambda fr=fr: M.query_mase("a", "p", "t", fr, use_mean=False), lambda fr=fr: d().abs().median() / (c("t") - c("t").shift(fr)).abs().median(), {**AP, "t": "real"})
ob("M03", "mase const", f + "query_mase", lambda: M.query_mase("a", "p", 2.5), lambda: d().abs().mean() / 2.5, AP)
ob("M03", "msle", f + "query_msle", lambda: M.query_msle("a", "p"), lambda: (((1 + c("a")).log() - (1 + c("p")).log()) ** 2).mean(), {"a": "nonneg", "p": "nonneg"})
ob("M03", "msle total", f + "query_msle", lambda: M.query_msle("a", "p", normalize=False), lambda: (((1 + c("a")).log() - (1 + c("p")).log()) ** 2).sum(), {"a": "nonneg", "p": "nonneg"})
ob("M03", "mad", f + "query_mad", lambda: M.query_mad("a"), lambda: (c("a") - c("a").sum() / N()).abs().sum() / N(), AP)
ob("M03", "mad median", f + "query_mad", lambda: M.query_mad("a", use_mean=False), lambda: (c("a") - c("a").median()).abs().median(), AP)
ob("M03", "cross entropy", f + "query_cat_cross_entropy", lambda: M.query_cat_cross_entropy("k", "q"), lambda: -(c("q").list.get(c("k")).log().sum()) / N(),
   {"k": lambda r, n: [r.randint(0, 2) for _ in range(n)], "q": "list"})
ob("M03", "cross entropy total", f + "query_cat_cross_entropy", lambda: M.query_cat_cross_entropy("k", "q", normalize=False), lambda: -(c("q").list.get(c("k")).log().sum()),
   {"k": lambda r, n: [r.randint(0, 2) for _ in range(n)], "q": "list"})
ob("M03", "fairness", f + "query_fairness", lambda: M.query_fairness("a", c("z")), lambda: ((pl.when(c("z")).then(c("a"))).mean() - (pl.when(~c("z")).then(c("a"))).mean()).abs(), {"a": "real", "z": "bool"})
ob("M03", "p_pct", f + "query_p_pct_score", lambda: M.query_p_pct_score("b", c("z")),
   lambda: pl.min_horizontal(c("b").filter(c("z")).mean() / c("b").filter(~c("z")).mean(), c("b").filter(~c("z")).mean() / c("b").filter(c("z")).mean()), {"b": "bool01", "z": "bool"}, min_rows=8)

# ------------------------------------------------------------------ M01 / M02
u32 = pl.UInt32
cm = lambda: P("pl_binary_confusion_matrix", [2 * c("b").cast(u32) + (c("u") > S("t")).cast(u32)], returns_scalar=True)
ob("M01", "confusion all", f + "query_confusion_matrix", lambda: M.query_confusion_matrix("b", "u", S("t"), all_metrics=True), cm, {"b": "bool01", "u": "unit", "S_t": "unit"})
ob("M01", "confusion counts", f + "query_confusion_matrix", lambda: M.query_confusion_matrix("b", "u", S("t")),
   lambda: pl.struct(*[cm().struct.field(k) for k in ("tn", "fp", "fn", "tp")]), {"b": "bool01", "u": "unit", "S_t": "unit"})
ob("M01", "mcc", f + "query_mcc", lambda: M.query_mcc("b", "b2"), lambda: P("pl_mcc", [(2 * c("b") + c("b2")).cast(u32)], returns_scalar=True), {"b": "bool01", "b2": "bool01"})
roc = lambda b, u: P("pl_roc_auc", [b.cast(u32), u], returns_scalar=True)
ob("M02", "roc", f + "query_roc_auc", lambda: M.query_roc_auc("b", "u"), lambda: roc(c("b"), c("u")), {"b": "bool01", "u": "unit"})
ob("M02", "gini", f + "query_gini", lambda: M.query_gini("b", "u"), lambda: 2 * roc(c("b"), c("u")) - 1, {"b": "bool01", "u": "unit"})
ob("M02", "tpr fpr", f + "query_tpr_fpr", lambda: M.query_tpr_fpr("b", "u").struct.field("tpr"), lambda: P("pl_tpr_fpr", [c("b").cast(u32), c("u")]).struct.field("tpr"), {"b": "bool01", "u": "unit"})
ob("M02", "binary metrics", f + "query_binary_metrics", lambda: M.query_binary_metrics("b", "u", 0.375), lambda: P("pl_combo_b", [c("b").cast(u32), c("u"), L(0.375, dtype=pl.Float64)], returns_scalar=True), {"b": "bool01", "u": "unit"})
_k3 = lambda r, n: [i % 3 for i in range(n)]
ob("M02", "multi auc macro", f + "query_multi_roc_auc", lambda: M.query_multi_roc_auc("k", "q", 3, "macro"),
   lambda: sum([roc(c("k") == i, c("q").list.get(i)) for i in range(3)], L(0.0)) / 3, {"k": _k3, "q": "list"}, min_rows=7)
ob("M02", "multi auc weighted", f + "query_multi_roc_auc", lambda: M.query_multi_roc_auc("k", "q", 3, "weighted"),
   lambda: sum([(c("k") == i).sum() * roc(c("k") == i, c("q").list.get(i)) for i in range(3)], L(0.0)) / N(), {"k": _k3, "q": "list"}, min_rows=7)

# ------------------------------------------------------------------ F07
f = "exprs.stats."
XY = {"x": "real", "y": "real"}
XW = {"x": "real", "w": "pos"}
XYW = {"x": "real", "y": "real", "w": "pos"}
wm = lambda x: (c(x) * c("w")).sum() / c("w").sum()
ob("F07", "hmean", f + "hmean", lambda: ST.hmean("x"), lambda: N() / (1 / c("x")).sum(), {"x": "pos"})
ob("F07", "gmean", f + "gmean", lambda: ST.gmean("x"), lambda: (c("x").log().sum() / N()).exp(), {"x": "pos"})
ob("F07", "whmean", f + "weighted_hmean", lambda: ST.weighted_hmean("x", "w"), lambda: c("w").sum() / (c("w") / c("x")).sum(), {"x": "pos", "w": "pos"})
ob("F07", "whmean normalized", f + "weighted_hmean", lambda: ST.weighted_hmean("x", "w", True), lambda: 1 / (c("w") / c("x")).sum(), {"x": "pos", "w": "pos"})
ob("F07", "wgmean", f + "weighted_gmean", lambda: ST.weighted_gmean("x", "w"), lambda: ((c("w") * c("x").log()).sum() / c("w").sum()).exp(), {"x": "pos", "w": "pos"})
ob("F07", "wgmean normalized", f + "weighted_gmean", lambda: ST.weighted_gmean("x", "w", True), lambda: (c("w") * c("x").log()).sum().exp(), {"x": "pos", "w": "pos"})
ob("F07", "wmean", f + "weighted_mean", lambda: ST.weighted_mean("x", "w"), lambda: wm("x"), XW)
ob("F07", "wmean normalized", f + "weighted_mean", lambda: ST.weighted_mean("x", "w", True), lambda: (c("x") * c("w")).sum(), XW)
ob("F07", "wvar", f + "weighted_var", lambda: ST.weighted_var("x", "w"), lambda: (c("w") * c("x") ** 2).sum() / c("w").sum() - wm("x") ** 2, XW, tol=1e-5)
ob("F07", "wvar freq", f + "weighted_var", lambda: ST.weighted_var("x", "w", True), lambda: (c("w") * (c("x") - wm("x")) ** 2).sum() / (c("w").sum() - 1), {"x": "real", "w": "posint"})
ob("F07", "wcov", f + "weighted_cov", lambda: ST.weighted_cov("x", "y", "w"), lambda: (c("w") * c("x") * c("y")).sum() / c("w").sum() - wm("x") * wm("y"), XYW, tol=1e-5)
ob("F07", "wcorr", f + "weighted_corr", lambda: ST.weighted_corr("x", "y", "w"),
   lambda: (c("w") * (c("x") - wm("x")) * (c("y") - wm("y"))).sum() / ((c("w") * (c("x") - wm("x")) ** 2).sum() * (c("w") * (c("y") - wm("y")) ** 2).sum()).sqrt(), XYW)
ob("F07", "cosine", f + "cosine_sim", lambda: ST.cosine_sim("x", "y"), lambda: (c("x") * c("y")).sum() / ((c("x") ** 2).sum().sqrt() * (c("y") ** 2).sum().sqrt()), XY)
ob("F07", "wcosine", f + "weighted_cosine_sim", lambda: ST.weighted_cosine_sim("x", "y", "w"),
   lambda: (c("w") * c("x") * c("y")).sum() / ((c("w") * c("x") ** 2).sum() * (c("w") * c("y") ** 2).sum()).sqrt(), XYW)
for q, m in ((0.05, "nearest"), (0.2, "linear")):
    ob("F07", f"winsorize {q}", f + "winsorize", lambda q=q, m=m: ST.winsorize("x", q, 0.9, m),
       lambda q=q, m=m: pl.when(c("x") < c("x").quantile(q, m)).then(c("x").quantile(q, m)).when(c("x") > c("x").quantile(0.9, m)).then(c("x").quantile(0.9, m)).otherwise(c("x")), {"x": "real"})


def _bicor(k):
    def w(z):
        u = (c(z) - c(z).median()) / (k * (c(z) - c(z).median()).abs().median())
        return pl.when(u.abs() < 1).then((c(z) - c(z).median()) * (1 - u ** 2) ** 2).otherwise(0.0)
    return (w("x") * w("y")).sum() / ((w("x") ** 2).sum() * (w("y") ** 2).sum()).sqrt()


ob("F07", "bicor", f + "bicor", lambda: ST.bicor("x", "y"), lambda: _bicor(9.0), {"x": lambda r, n: [r.gauss(0, 1) for _ in range(n)], "y": lambda r, n: [r.gauss(0, 1) for _ in range(n)]})
ob("F07", "bicor c", f + "bicor", lambda: ST.bicor("x", "y", 4.0), lambda: _bicor(4.0), {"x": lambda r, n: [r.gauss(0, 1) for _ in range(n)], "y": lambda r, n: [r.gauss(0, 1) for _ in range(n)]})
ob("F07", "kendall", f + "kendall_tau", lambda: ST.kendall_tau("x", "y"),
   lambda: P("pl_kendall_tau", [c("x").fill_nan(None).rank(method="min"), c("y").fill_nan(None).rank(method="min")], returns_scalar=True), XY, min_rows=6)
ob("F07", "xi", f + "xi_corr", lambda: ST.xi_corr("x", "y", seed=3), lambda: P("pl_xi_corr", [c("x").rank(method="random", seed=3), c("y").rank(method="max").cast(pl.Float64), (-c("y")).rank(method="max").cast(pl.Float64)], returns_scalar=True), XY)
ob("F07", "xi p", f + "xi_corr", lambda: ST.xi_corr("x", "y", seed=3, return_p=True), lambda: P("pl_xi_corr_w_p", [c("x").rank(method="random", seed=3), c("y").rank(method="max").cast(pl.Float64), (-c("y")).rank(method="max").cast(pl.Float64)], returns_scalar=True), XY)
ob("F07", "corr pearson", f + "corr", lambda: ST.corr("x", "y"), lambda: ((c("x") - c("x").mean()) * (c("y") - c("y").mean())).sum() / (((c("x") - c("x").mean()) ** 2).sum() * ((c("y") - c("y").mean()) ** 2).sum()).sqrt(), XY)
for meth, g in (("kendall", lambda: ST.kendall_tau("x", "y")), ("bicor", lambda: _bicor(9.0)), ("spearman", lambda: pl.corr("x", "y", method="spearman"))):
    ob("F07", "corr " + meth, f + "corr", lambda meth=meth: ST.corr("x", "y", meth), g, {"x": lambda r, n: [r.gauss(0, 1) for _ in range(n)], "y": lambda r, n: [r.gauss(0, 1) for _ in range(n)]})

# ------------------------------------------------------------------ F05
F64, U64 = pl.Float64, pl.UInt64
fin = lambda x: c(x).filter(c(x).is_finite())
for alt in ("two-sided", "less", "greater"):
    A = lambda alt=alt: L(alt, dtype=pl.String)
    ob("F05", f"welch {alt}", f + "ttest_ind", lambda alt=alt: ST.ttest_ind("x", "y", alternative=alt, equal_var=False),
       lambda A=A: P("pl_welch_t", [fin("x").mean(), fin("y").mean(), fin("x").var(), fin("y").var(), fin("x").count().cast(U64), fin("y").count().cast(U64), A()], returns_scalar=True), XY)
    ob("F05", f"student {alt}", f + "ttest_ind", lambda alt=alt: ST.ttest_ind("x", "y", alternative=alt, equal_var=True),
       lambda A=A: P("pl_ttest_2samp", [c("x").mean(), c("y").mean(), c("x").var(), c("y").var(), N().cast(U64), A()], returns_scalar=True), XY)
    ob("F05", f"one sample {alt}", f + "ttest_1samp", lambda alt=alt: ST.ttest_1samp("x", 0.75, alternative=alt),
       lambda A=A: P("pl_ttest_1samp", [fin("x").mean(), L(0.75), fin("x").var(), fin("x").count().cast(U64), A()], returns_scalar=True), XY)
    ob("F05", f"from stats {alt}", f + "ttest_ind_from_stats", lambda alt=alt: ST.ttest_ind_from_stats("x", 0.5, 1.25, 9, alternative=alt, equal_var=False),
       lambda A=A: P("pl_welch_t", [fin("x").mean(), L(0.5), fin("x").var(), L(1.25), fin("x").count().cast(U64), L(9, dtype=U64), A()], returns_scalar=True), XY)
    ob("F05", f"from stats equal {alt}", f + "ttest_ind_from_stats", lambda alt=alt: ST.ttest_ind_from_stats("x", 0.5, 1.25, 9, alternative=alt, equal_var=True),
       lambda A=A: P("pl_ttest_2samp", [c("x").mean(), L(0.5), c("x").var(), L(1.25), N().cast(U64), A()], returns_scalar=True), XY)
    _rk = lambda: exprvc.mark("__vx_append", [fin("x"), fin("y")]).rank() if MARKING() else fin("x").append(fin("y")).rank()
    _n1 = lambda: fin("x").count().cast(F64)
    _n2 = lambda: fin("y").count().cast(F64)
    _u1 = lambda: fin("x").append(fin("y")).rank().slice(0, fin("x").count()).sum() - _n1() * (_n1() + 1) / 2
    ob("F05", f"mann whitney {alt}", f + "mann_whitney_u", lambda alt=alt: ST.mann_whitney_u("x", "y", alternative=alt),
       lambda A=A: P("pl_mann_whitney_u", [_u1(), _n1() * _n2() - _u1(), _n1() * _n2() / 2, fin("x").append(fin("y")).rank().sort(), A()], returns_scalar=True), XY)
ob("F05", "ks", f + "ks_2samp", lambda: ST.ks_2samp("x", "y", alpha=0.1), lambda: P("pl_ks_2samp", [fin("x").sort(), fin("y").sort(), L(0.1)], returns_scalar=True), XY)
ob("F05", "ks binary", f + "ks_2samp", lambda: ST.ks_2samp("b", "y", alpha=0.1, is_binary=True),
   lambda: P("pl_ks_2samp", [c("y").filter((c("b") == 1) & c("y").is_finite()).sort(), c("y").filter((c("b") == 0) & c("y").is_finite()).sort(), L(0.1)], returns_scalar=True), {"b": "bool01", "y": "real"})
ob("F05", "normality", f + "normal_test", lambda: ST.normal_test("x"), lambda: P("pl_normal_test", [fin("x").skew(), fin("x").kurtosis(fisher=False), fin("x").count().cast(u32)], returns_scalar=True), XY, min_rows=12)
ob("F05", "anova", f + "f_test", lambda: ST.f_test("x", group="g"), lambda: P("pl_f_test", [c("g"), c("x")], returns_scalar=True), {"x": "real", "g": "group"}, min_rows=12)
ob("F05", "anova many", f + "f_test", lambda: ST.f_test("x", "y", group="g"), lambda: P("pl_f_test", [c("g"), c("x"), c("y")], changes_length=True), {"x": "real", "y": "real", "g": "group"}, min_rows=12)
ob("F05", "chi2", f + "chi2", lambda: ST.chi2("g", "h"), lambda: P("pl_chi2", [c("g"), c("h")], returns_scalar=True), {"g": "group", "h": "group"})
ob("F05", "chi2 full", f + "chi2", lambda: ST.chi2("g", "h", return_full=True), lambda: P("pl_chi2_full", [c("g"), c("h")], changes_length=True), {"g": "group", "h": "group"})

# ------------------------------------------------------------------ G01 (the expression handed to the sampler)
xs = {"x": "real"}
ln = lambda: pl.len()
s64 = lambda s: L(s, dtype=U64)
ob("G01", "uniform", f + "random", lambda: ST.random(0.25, 2.5, seed=5), lambda: P("pl_random", [ln(), L(0.25), L(2.5), s64(5)], is_elementwise=True), xs)
ob("G01", "integer", f + "random_int", lambda: ST.random_int(2, 9, seed=5), lambda: P("pl_rand_int", [ln(), L(2, dtype=pl.Int32), L(9, dtype=pl.Int32), s64(5)], is_elementwise=True), xs)
ob("G01", "string", f + "random_str", lambda: ST.random_str(2, 9, seed=5), lambda: P("pl_rand_str", [ln(), L(2, dtype=u32), L(9, dtype=u32), s64(5)], is_elementwise=True), xs)
ob("G01", "string swapped", f + "random_str", lambda: ST.random_str(9, 2, seed=5), lambda: P("pl_rand_str", [ln(), L(2, dtype=u32), L(9, dtype=u32), s64(5)], is_elementwise=True), xs)
ob("G01", "binomial", f + "random_binomial", lambda: ST.random_binomial(7, 0.3, seed=5), lambda: P("pl_rand_binomial", [ln(), L(7, dtype=u32), L(0.3), s64(5)], is_elementwise=True), xs)
ob("G01", "exponential", f + "random_exp", lambda: ST.random_exp(1.5, seed=5), lambda: P("pl_rand_exp", [ln(), L(1.5), s64(5)], is_elementwise=True), xs)
ob("G01", "normal", f + "random_normal", lambda: ST.random_normal(1.5, 0.5, seed=5), lambda: P("pl_rand_normal", [ln(), L(1.5), L(0.5), s64(5)], is_elementwise=True), xs)
ob("G01", "perturb", f + "perturb", lambda: ST.perturb("x", 0.5, seed=5), lambda: P("pl_perturb", [c("x"), L(-0.25), L(0.25), s64(5)], is_elementwise=True), xs)
ob("G01", "perturb positive", f + "perturb", lambda: ST.perturb("x", -0.5, positive=True, seed=5), lambda: P("pl_perturb", [c("x"), L(0.0), L(0.5), s64(5)], is_elementwise=True), xs)
ob("G01", "jitter", f + "jitter", lambda: ST.jitter("x", 0.5, seed=5), lambda: P("pl_jitter", [c("x"), L(0.5), s64(5)], is_elementwise=True), xs)
ob("G01", "jitter zero", f + "jitter", lambda: ST.jitter("x", 0.0, seed=5), lambda: c("x"), xs)
ob("G01", "add_noise gaussian", f + "add_noise", lambda: ST.add_noise("x", "gaussian", std=0.5, seed=5), lambda: P("pl_jitter", [c("x"), L(0.5), s64(5)], is_elementwise=True), xs)
ob("G01", "add_noise uniform", f + "add_noise", lambda: ST.add_noise("x", "uniform", epsilon=0.5, seed=5), lambda: P("pl_perturb", [c("x"), L(-0.25), L(0.25), s64(5)], is_elementwise=True), xs)
ob("G01", "random null", f + "random_null", lambda: ST.random_null("x", 0.3, seed=5),
   lambda: pl.when(P("pl_random", [ln(), L(0.0), L(1.0), s64(5)], is_elementwise=True) >= 0.3).then(c("x")), xs)

# ------------------------------------------------------------------ F08
f = "exprs.num."
NX = dict(nullable=("x",))
for nm, sym in (("gamma", "pl_gamma"), ("expit", "pl_expit"), ("logit", "pl_logit"), ("exp2", "pl_exp2"), ("fract", "pl_fract"), ("trunc", "pl_trunc"), ("next_up", "pl_next_up"), ("next_down", "pl_next_down"), ("digamma", "pl_diagamma")):
    ob("F08", nm, f + nm, lambda nm=nm: getattr(NU, nm)("x"), lambda sym=sym: P(sym, [c("x")], is_elementwise=True), {"x": "unit"}, **NX)
ob("F08", "xlogy", f + "xlogy", lambda: NU.xlogy("x", "y"), lambda: _x(c("x"), c("y")), {"x": "nonneg", "y": "pos"}, **NX)
ob("F08", "center", f + "center", lambda: NU.center("x"), lambda: c("x") - c("x").sum() / c("x").count(), xs, **NX)
ob("F08", "z_normalize", f + "z_normalize", lambda: NU.z_normalize("x"), lambda: pl.when(c("x").count() > 1).then((c("x") - c("x").mean()) / (((c("x") - c("x").mean()) ** 2).sum() / (c("x").count() - 1)).sqrt()), xs)
ob("F08", "softmax", f + "softmax", lambda: NU.softmax("x"), lambda: c("x").exp() / c("x").exp().sum(), xs, **NX)
ob("F08", "sinc", f + "sinc", lambda: NU.sinc("x"), lambda: pl.when(c("x") == 0).then((L(math.pi) * 1e-20).sin() / (math.pi * L(1e-20))).otherwise((math.pi * c("x")).sin() / (math.pi * c("x"))), xs, **NX)
H = {"x": "real", "y": "real", "z": "real"}
for nz in (False, True):
    k = 3 if nz else 1
    ob("F08", f"l_inf {nz}", f + "l_inf_horizontal", lambda nz=nz: NU.l_inf_horizontal("x", "y", "z", normalize=nz), lambda k=k: pl.max_horizontal(c("x").abs(), c("y").abs(), c("z").abs()) / k, H)
    ob("F08", f"l1 {nz}", f + "l1_horizontal", lambda nz=nz: NU.l1_horizontal("x", "y", "z", normalize=nz), lambda k=k: (c("x").abs() + c("y").abs() + c("z").abs()) / k, H)
    ob("F08", f"l2 {nz}", f + "l2_sq_horizontal", lambda nz=nz: NU.l2_sq_horizontal("x", "y", "z", normalize=nz), lambda k=k: (c("x") ** 2 + c("y") ** 2 + c("z") ** 2) / k, H)
hv = lambda *a: P("pl_haversine", list(a), is_elementwise=True, cast_to_supertype=True)
ob("F08", "haversine", f + "haversine", lambda: NU.haversine("x", "y", "z", "w"), lambda: hv(c("x"), c("y"), c("z"), c("w")), {**H, "w": "real"})
ob("F08", "haversine point", f + "haversine", lambda: NU.haversine("x", "y", 1.5, 2.5), lambda: hv(c("x"), c("y"), L(1.5), L(2.5)), H)

# ------------------------------------------------------------------ F02
ob("F02", "detrend mean", f + "detrend", lambda: NU.detrend("x", "mean"), lambda: c("x") - c("x").sum() / c("x").count(), xs, **NX)
_t = lambda: pl.int_range(0, pl.len())
_tm = lambda: _t().filter(c("x").is_not_null()).mean()
_b = lambda: ((c("x") - c("x").mean()) * (pl.when(c("x").is_not_null()).then(_t()) - _tm())).sum() / ((pl.when(c("x").is_not_null()).then(_t()) - _tm()) ** 2).sum()
ob("F02", "detrend linear", f + "detrend", lambda: NU.detrend("x", "linear"), lambda: pl.when(c("x").count() > 1).then(c("x") - (c("x").mean() + _b() * (_t() - _tm()))), xs, **NX)
ob("F02", "trapz column", f + "integrate_trapz", lambda: NU.integrate_trapz("y", c("x")), lambda: P("pl_trapz", [c("y").cast(F64), c("x").cast(F64)], returns_scalar=True), XY)
ob("F02", "trapz uniform", f + "integrate_trapz", lambda: NU.integrate_trapz("y", 0.5), lambda: P("pl_trapz", [c("y").cast(F64), L(0.5)], returns_scalar=True), XY)
ker = [1.0, -2.0, 0.5]
for mode in ("full", "same", "left", "right", "valid"):
    for method in ("direct", "fft"):
        ob("F02", f"convolve {mode} {method}", f + "convolve", lambda mode=mode, method=method: NU.convolve("x", ker, mode=mode, method=method),
           lambda mode=mode, method=method: P("pl_convolve", [c("x").fill_null(0.0).cast(F64), pl.Series(values=ker[::-1] if method == "direct" else ker, dtype=F64)], {"mode": mode, "method": method, "parallel": False}, changes_length=True), xs, **NX)
for n_, fl in ((None, False), (6, True)):
    ob("F02", f"rfft {n_} {fl}", f + "rfft", lambda n_=n_, fl=fl: NU.rfft("x", n_, fl), lambda n_=n_, fl=fl: P("pl_rfft", [c("x").cast(F64), L(n_, dtype=u32), L(fl, dtype=pl.Boolean)], changes_length=True), xs)

# ------------------------------------------------------------------ F01 / F03 / F04 / F09
ob("F01", "isotonic", f + "isotonic_regression", lambda: NU.isotonic_regression("x"), lambda: P("pl_isotonic_regression", [c("x").cast(F64)], {"has_weights": False, "increasing": True}), xs)
ob("F01", "isotonic weights", f + "isotonic_regression", lambda: NU.isotonic_regression("x", "w", increasing=False), lambda: P("pl_isotonic_regression", [c("x").cast(F64), c("w").cast(F64)], {"has_weights": True, "increasing": False}), XW)
ob("F03", "target encode", f + "target_encode", lambda: NU.target_encode("s", "b", 7, 2.5), lambda: P("pl_target_encode", [c("s"), c("b"), c("b").sum() / c("b").count()], {"min_samples_leaf": 7.0, "smoothing": 2.5}, changes_length=True), {"s": "str", "b": "bool01"}, unordered=True)
_q = lambda n_: c("x").filter(c("x").is_finite()).qcut(n_, left_closed=False, allow_duplicates=True).cast(pl.String)
_tt = lambda: c("b").filter(c("x").is_finite())
ob("F03", "woe", f + "woe", lambda: NU.woe("x", "b", 4), lambda: P("pl_woe_discrete", [_q(4), _tt()], changes_length=True), {"x": "real", "b": "bool01"}, unordered=True)
ob("F03", "woe discrete", f + "woe_discrete", lambda: NU.woe_discrete("s", "b"), lambda: P("pl_woe_discrete", [c("s").cast(pl.String), c("b")], changes_length=True), {"s": "str", "b": "bool01"}, unordered=True)
ob("F03", "iv", f + "info_value", lambda: NU.info_value("x", "b", 4), lambda: P("pl_iv", [_q(4), _tt()], changes_length=True).struct.field("iv").sum(), {"x": "real", "b": "bool01"}, min_rows=9)
ob("F03", "iv report", f + "info_value", lambda: NU.info_value("x", "b", 4, return_sum=False), lambda: P("pl_iv", [_q(4), _tt()], changes_length=True), {"x": "real", "b": "bool01"}, unordered=True)
ob("F03", "iv discrete", f + "info_value_discrete", lambda: NU.info_value_discrete("s", "b"), lambda: P("pl_iv", [c("s").cast(pl.String), c("b")], changes_length=True).struct.field("iv").sum(), {"s": "str", "b": "bool01"})
_vc = lambda n_: fin("y").cast(F64).qcut(n_, left_closed=False, allow_duplicates=True, include_breaks=True).struct.rename_fields(["brk", "category"]).struct.field("brk").value_counts().sort()
_psi = lambda n_: P("pl_psi_report", [fin("x").cast(F64), _vc(n_).struct.field("brk"), _vc(n_).struct.field("count")], changes_length=True)
ob("F03", "psi report", f + "psi", lambda: NU.psi("x", "y", 4, return_report=True), lambda: _psi(4), XY, min_rows=9)
ob("F03", "psi", f + "psi", lambda: NU.psi("x", "y", 4), lambda: _psi(4).struct.field("psi_bin").sum(), XY, min_rows=9)
ob("F03", "psi breakpoints", f + "psi_w_breakpoints", lambda: NU.psi_w_breakpoints("x", "y", [-1.0, 0.0, 1.0]), lambda: P("pl_psi_w_bps", [fin("y").cast(F64), fin("x").cast(F64), pl.Series(values=[-1.0, 0.0, 1.0, float("inf")])], changes_length=True), XY, min_rows=9)
_vd = lambda s: c(s).value_counts().sort().struct.rename_fields(["", "count"])
ob("F03", "psi discrete", f + "psi_discrete", lambda: NU.psi_discrete("g", "h"), lambda: P("pl_psi_discrete_report", [_vd("g").struct.field(""), _vd("g").struct.field("count"), _vd("h").struct.field(""), _vd("h").struct.field("count")], changes_length=True).struct.field("psi_bin").sum(), {"g": "group", "h": "group"}, min_rows=12)

i32 = pl.Int32
for nm, sym in (("gcd", "pl_gcd"), ("lcm", "pl_lcm")):
    ob("F04", nm, f + nm, lambda nm=nm: getattr(NU, nm)("i", "j"), lambda sym=sym: P(sym, [c("i").cast(i32), c("j").cast(i32)], is_elementwise=True), {"i": "posint", "j": "posint"})
    ob("F04", nm + " literal", f + nm, lambda nm=nm: getattr(NU, nm)("i", 12), lambda sym=sym: P(sym, [c("i").cast(i32), L(12, dtype=i32)], is_elementwise=True), {"i": "posint"})
ob("F04", "jaccard row", f + "jaccard_row", lambda: NU.jaccard_row("x", "y"), lambda: P("pl_list_jaccard", [c("x"), c("y")], is_elementwise=True), {"x": lambda r, n: [[r.randint(0, 4) for _ in range(r.randint(1, 4))] for _ in range(n)], "y": lambda r, n: [[r.randint(0, 4) for _ in range(r.randint(1, 4))] for _ in range(n)]})
for cn in (True, False):
    ob("F04", f"jaccard col {cn}", f + "jaccard_col", lambda cn=cn: NU.jaccard_col("i", "j", cn), lambda cn=cn: P("pl_jaccard", [c("i"), c("j"), L(cn)], returns_scalar=True), {"i": "int", "j": "int"})
f = "exprs.expr_iter."
ob("F04", "product", f + "product", lambda: IT.product("i", "j"), lambda: P("pl_product", [c("i").filter(c("i").is_not_null()), c("j").filter(c("j").is_not_null())], changes_length=True), {"i": "int", "j": "int"}, nullable=("i", "j"))
ob("F04", "combinations", f + "combinations", lambda: IT.combinations("i", 2), lambda: P("pl_combinations", [c("i").drop_nulls()], {"k": 2}, changes_length=True), {"i": "int"})
ob("F04", "combinations unique", f + "combinations", lambda: IT.combinations("i", 2, unique=True), lambda: P("pl_combinations", [c("i").unique().drop_nulls().sort()], {"k": 2}, changes_length=True), {"i": "int"})
f = "exprs.ts_features."
ob("F04", "first digit", f + "query_first_digit_cnt", lambda: TS.query_first_digit_cnt("x"), lambda: P("pl_benford_law", [c("x")], returns_scalar=True), xs)
f = "exprs.num."
for nm, op in (("is_increasing", "__gt__"), ("is_decreasing", "__lt__")):
    for st in (True, False):
        o = op if st else {"__gt__": "__ge__", "__lt__": "__le__"}[op]
        ob("F04", f"{nm} {st}", f + nm, lambda nm=nm, st=st: getattr(NU, nm)("x", strict=st), lambda o=o: getattr(c("x"), o)(c("x").shift(1)).all(), xs)
_rle = lambda: c("z").rle().struct.rename_fields(["len", "value"])
f = "exprs.ts_features."
ob("F04", "longest streak", f + "query_longest_streak", lambda: TS.query_longest_streak("z"), lambda: _rle().struct.field("len").filter(_rle().struct.field("value")).max().fill_null(0), {"z": "bool"})
ob("F04", "average streak", f + "query_avg_streak", lambda: TS.query_avg_streak("z"), lambda: _rle().struct.field("len").filter(_rle().struct.field("value")).mean().fill_null(0), {"z": "bool"})
ob("F04", "streaks", f + "query_streak", lambda: TS.query_streak("z"), lambda: _rle().struct.field("len"), {"z": "bool"})

f = "exprs.num."
cen = lambda x: c(x) - c(x).sum() / c(x).count()
for ce in (True, False):
    g = cen if ce else c
    ob("F09", f"singular {ce}", f + "singular_values", lambda ce=ce: NU.singular_values("x", "y", center=ce), lambda g=g: P("pl_singular_values", [g("x"), g("y")], returns_scalar=True), XY)
    ob("F09", f"pca {ce}", f + "pca", lambda ce=ce: NU.pca("x", "y", center=ce), lambda g=g: P("pl_pca", [g("x"), g("y")], changes_length=True, pass_name_to_apply=True), XY)
    ob("F09", f"components {ce}", f + "principal_components", lambda ce=ce: NU.principal_components("x", "y", k=2, center=ce), lambda g=g: P("pl_principal_components", [g("x"), g("y")], {"k": 2}, pass_name_to_apply=True), XY)
ob("F09", "explained variance", f + "singular_values", lambda: NU.singular_values("x", "y", as_explained_var=True), lambda: P("pl_singular_values", [cen("x") / (N() - 1).sqrt(), cen("y") / (N() - 1).sqrt()], returns_scalar=True).list.eval(pl.element().pow(2)), XY)
ob("F09", "ratio", f + "singular_values", lambda: NU.singular_values("x", "y", as_explained_var=True, as_ratio=True), lambda: P("pl_singular_values", [cen("x") / (N() - 1).sqrt(), cen("y") / (N() - 1).sqrt()], returns_scalar=True).list.eval(pl.element().pow(2)).list.eval(pl.element() / pl.element().sum()), XY)

# ------------------------------------------------------------------ F06
f = "exprs.ts_features."
ob("F06", "mid range", f + "query_mid_range", lambda: TS.query_mid_range("x"), lambda: (c("x").max() - c("x").min()) / 2, xs)
ob("F06", "symmetry", f + "query_symm_ratio", lambda: TS.query_symm_ratio("x"), lambda: (c("x").sum() / N() - c("x").median()).abs() / (c("x").max() - c("x").min()), xs)
ob("F06", "energy", f + "query_abs_energy", lambda: TS.query_abs_energy("x"), lambda: (c("x") ** 2).sum(), xs)
ob("F06", "mean abs change", f + "query_mean_abs_change", lambda: TS.query_mean_abs_change("x"), lambda: (c("x") - c("x").shift(1)).abs().mean(), xs)
ob("F06", "cv", f + "query_cv", lambda: TS.query_cv("x", ddof=0), lambda: c("x").std(ddof=0) / (c("x").sum() / N()), xs)
ob("F06", "mean n abs max", f + "query_mean_n_abs_max", lambda: TS.query_mean_n_abs_max("x", 3), lambda: c("x").abs().top_k(3).mean(), xs)
ob("F06", "count uniques", f + "query_count_uniques", lambda: TS.query_count_uniques("i"), lambda: c("i").is_unique().sum(), {"i": "int"})
ob("F06", "range count", f + "query_range_count", lambda: TS.query_range_count("x", S("lo"), S("hi")), lambda: ((c("x") >= S("lo")) & (c("x") <= S("hi"))).sum(), {"x": "real", "S_lo": "real", "S_hi": "real"})
for lag in (1, 2):
    ob("F06", f"c3 {lag}", f + "query_c3_stats", lambda lag=lag: TS.query_c3_stats("x", lag), lambda lag=lag: (c("x") * c("x").shift(lag) * c("x").shift(2 * lag)).sum() / (N() - 2 * lag), xs, min_rows=8)
    ob("F06", f"time reversal {lag}", f + "query_time_reversal_asymmetry_stats", lambda lag=lag: TS.query_time_reversal_asymmetry_stats("x", lag),
       lambda lag=lag: (c("x").shift(-2 * lag) ** 2 * c("x").shift(-lag) - c("x").shift(-lag) * c("x") ** 2).mean(), xs, min_rows=8)
    ob("F06", f"autocorr raw {lag}", f + "query_auto_corr", lambda lag=lag: TS.query_auto_corr("x", lag, normalize=False), lambda lag=lag: (c("x") * c("x").shift(lag)).mean(), xs, min_rows=8)
    for dd in (0, 1):
        ob("F06", f"autocorr {lag} {dd}", f + "query_auto_corr", lambda lag=lag, dd=dd: TS.query_auto_corr("x", lag, ddof=dd),
           lambda lag=lag, dd=dd: pl.when(N() >= lag).then(((c("x") - c("x").mean()) * (c("x").shift(lag) - c("x").mean())).sum() / ((N() - lag) * c("x").var(ddof=dd))).otherwise(float("nan")), xs, min_rows=8)
ob("F06", "cid", f + "query_cid_ce", lambda: TS.query_cid_ce("x"), lambda: ((c("x") - c("x").shift(1)) ** 2).sum().sqrt(), xs)
ob("F06", "cid normalized", f + "query_cid_ce", lambda: TS.query_cid_ce("x", normalize=True), lambda: ((c("x") - c("x").shift(1)) ** 2).sum().sqrt() / c("x").std(), xs, pre=[lambda eng, cs: [eng.len_of("0") >= 2]])
ob("F06", "entropy", f + "query_entropy", lambda: TS.query_entropy("i", base=2.0), lambda: c("i").unique_counts().entropy(base=2.0, normalize=True), {"i": "int"})
ob("F06", "cond entropy", f + "query_cond_entropy", lambda: TS.query_cond_entropy("i", "j"), lambda: P("pl_conditional_entropy", [c("i"), c("j")], returns_scalar=True, pass_name_to_apply=True), {"i": "int", "j": "int"})
ob("F06", "lempel ziv", f + "query_lempel_ziv", lambda: TS.query_lempel_ziv("z"), lambda: P("pl_lempel_ziv_complexity", [c("z")], returns_scalar=True) / N(), {"z": "bool"})
ob("F06", "lempel ziv count", f + "query_lempel_ziv", lambda: TS.query_lempel_ziv("z", as_ratio=False), lambda: P("pl_lempel_ziv_complexity", [c("z")], returns_scalar=True), {"z": "bool"})
q = [0.5, -1.0, 0.25]
ob("F06", "similar l2", f + "query_similar_count", lambda: TS.query_similar_count(q, "x", 2.0, metric="sql2"), lambda: P("pl_subseq_sim_cnt_l2", [c("x").cast(F64), pl.Series(values=q)], {"threshold": 2.0, "parallel": False}, returns_scalar=True), xs, min_rows=6)
ob("F06", "similar ratio", f + "query_similar_count", lambda: TS.query_similar_count(q, "x", 2.0, metric="sql2", return_ratio=True), lambda: P("pl_subseq_sim_cnt_l2", [c("x").cast(F64), pl.Series(values=q)], {"threshold": 2.0, "parallel": False}, returns_scalar=True) / (N() - 2), xs, min_rows=6)
_w = lambda i, m: c("x").shift(-i).slice(0, N() - m + 1)
ob("F06", "sample entropy", f + "query_sample_entropy", lambda: TS.query_sample_entropy("x", 0.3, 2), lambda: P("pl_sample_entropy", [0.3 * c("x").std(ddof=0), c("x").slice(0, N() - 1), _w(1, 2), _w(2, 2)], {"k": 0, "metric": "inf", "parallel": False}, returns_scalar=True, pass_name_to_apply=True), xs)
ob("F06", "approximate entropy", f + "query_approx_entropy", lambda: TS.query_approx_entropy("x", 2, 0.3, parallel=False), lambda: P("pl_approximate_entropy", [0.3 * c("x").std(), c("x").slice(0, N() - 1), _w(1, 2), _w(2, 2)], {"k": 0, "metric": "inf", "parallel": False}, returns_scalar=True, pass_name_to_apply=True), xs)
_kne = lambda *e, k=3: P("pl_knn_entropy", list(e), {"k": k, "metric": "l2", "parallel": False, "skip_eval": False, "skip_data": False}, returns_scalar=True, pass_name_to_apply=True)
ob("F06", "knn entropy", f + "query_knn_entropy", lambda: TS.query_knn_entropy("x", "y", k=2), lambda: _kne(c("x"), c("y"), k=2), XY)
_cop = lambda *e: -_kne(*[x.rank() / x.len() for x in e])
ob("F06", "copula entropy", f + "query_copula_entropy", lambda: TS.query_copula_entropy("x", "y"), lambda: _cop(c("x"), c("y")), XY)
ob("F06", "conditional independence", f + "query_cond_indep", lambda: TS.query_cond_indep("x", "y", "z"), lambda: _cop(c("x"), c("y"), c("z")) - _cop(c("y"), c("z")) - _cop(c("x"), c("z")), H)
_hd = lambda x, l: c(x).slice(0, N() - l)
ob("F06", "transfer entropy", f + "query_transfer_entropy", lambda: TS.query_transfer_entropy("x", "y", lag=2),
   lambda: _cop(c("x").slice(2, N() - 2), _hd("y", 2), _hd("x", 2)) - _cop(_hd("y", 2), _hd("x", 2)) - _cop(c("x").slice(2, N() - 2), _hd("x", 2)), XY)

# ------------------------------------------------------------------ N01 - N03 (which query the expressions hand to the search)
f = "exprs.expr_knn."
FT = {"x": "real", "y": "real", "i": "idx"}
NUL = dict(nullable=("x", "y"))
keep = lambda: c("x").is_not_null() & c("y").is_not_null()
for me in ("l1", "sql2", "inf"):
    kk = lambda ev, me=me: {"k": 3, "metric": me, "parallel": False, "skip_eval": ev, "max_bound": 7.5, "epsilon": 0.0}
    ob("N01", f"knn {me}", f + "query_knn_ptwise", lambda me=me: KN.query_knn_ptwise("x", "y", index="i", k=3, dist=me, max_bound=7.5), lambda kk=kk: P("pl_knn_ptwise", [c("i").cast(u32), keep(), c("x"), c("y")], kk(False)), FT, **NUL)
    ob("N01", f"knn dist {me}", f + "query_knn_ptwise", lambda me=me: KN.query_knn_ptwise("x", "y", index="i", k=3, dist=me, max_bound=7.5, return_dist=True), lambda kk=kk: P("pl_knn_ptwise_w_dist", [c("i").cast(u32), keep(), c("x"), c("y")], kk(False)), FT, **NUL)
    ob("N03", f"knn masks {me}", f + "query_knn_ptwise", lambda me=me: KN.query_knn_ptwise("x", "y", index="i", k=3, dist=me, max_bound=7.5, eval_mask="e", data_mask="m"), lambda kk=kk: P("pl_knn_ptwise", [c("i").cast(u32), c("m") & c("x").is_not_null() & c("y").is_not_null(), c("e"), c("x"), c("y")], kk(True)), {**FT, "e": "bool", "m": "bool"}, **NUL)
    ob("N03", f"knn data mask {me}", f + "query_knn_ptwise", lambda me=me: KN.query_knn_ptwise("x", "y", index="i", k=3, dist=me, max_bound=7.5, data_mask="m", return_dist=True), lambda kk=kk: P("pl_knn_ptwise_w_dist", [c("i").cast(u32), c("m") & c("x").is_not_null() & c("y").is_not_null(), c("x"), c("y")], kk(False)), {**FT, "e": "bool", "m": "bool"}, **NUL)
    ob("N03", f"knn average {me}", f + "query_knn_avg", lambda me=me: KN.query_knn_avg("x", "y", target="t", k=3, dist=me, weighted=True, min_bound=0.25, max_bound=7.5),
       lambda me=me: P("pl_knn_avg", [c("t").cast(F64), keep(), c("x"), c("y")], {"k": 3, "metric": me, "weighted": True, "parallel": False, "min_bound": 0.25, "max_bound": 7.5}), {**FT, "t": "real"}, **NUL)
    ob("N03", f"knn frequency {me}", f + "query_knn_freq_cnt", lambda me=me: KN.query_knn_freq_cnt("x", "y", index="i", k=3, dist=me, max_bound=7.5), lambda kk=kk: P("pl_knn_ptwise", [c("i").cast(u32), keep(), c("x"), c("y")], kk(False)).explode().drop_nulls().value_counts(sort=True, parallel=False), FT, **NUL)
    ob("N02", f"radius {me}", f + "query_radius_ptwise", lambda me=me: KN.query_radius_ptwise("x", "y", index="i", r=1.5, dist=me), lambda me=me: P("pl_query_radius_ptwise", [c("i").cast(u32), c("x"), c("y")], {"r": 1.5, "metric": me, "parallel": False, "sort": True}), FT, **NUL)
    ob("N03", f"radius frequency {me}", f + "query_radius_freq_cnt", lambda me=me: KN.query_radius_freq_cnt("x", "y", index="i", r=1.5, dist=me), lambda me=me: P("pl_query_radius_ptwise", [c("i").cast(u32), c("x"), c("y")], {"r": 1.5, "metric": me, "parallel": False, "sort": False}).explode().drop_nulls().value_counts(sort=True, parallel=False), FT, **NUL)
    ob("N02", f"count {me}", f + "query_nb_cnt", lambda me=me: KN.query_nb_cnt("x", "y", r="t", dist=me), lambda me=me: P("pl_nb_cnt", [c("t"), c("x"), c("y")], {"k": 0, "metric": me, "parallel": False, "skip_eval": False, "skip_data": False}), {**FT, "t": "pos"}, **NUL)
    D = {"l1": lambda: (c("x") - 0.5).abs() + (c("y") + 1.25).abs(), "sql2": lambda: (c("x") - 0.5) ** 2 + (c("y") + 1.25) ** 2, "inf": lambda: pl.max_horizontal((c("x") - 0.5).abs(), (c("y") + 1.25).abs())}[me]
    ob("N02", f"within {me}", f + "within_dist_from", lambda me=me: KN.within_dist_from("x", "y", pt=[0.5, -1.25], r=S("r"), dist=me), lambda D=D: D() <= S("r"), {**FT, "S_r": "pos"})
    ob("N01", f"is_knn {me}", f + "is_knn_from", lambda me=me: KN.is_knn_from("x", "y", pt=[0.5, -1.25], k=3, dist=me), lambda D=D: D() <= D().bottom_k(k=3).max(), FT, min_rows=6)
_cosd = lambda: 1 - (0.5 * c("x") - 1.25 * c("y")) / ((0.5 ** 2 + 1.25 ** 2) * (c("x") ** 2 + c("y") ** 2)).sqrt()
ob("N02", "within cosine", f + "within_dist_from", lambda: KN.within_dist_from("x", "y", pt=[0.5, -1.25], r=S("r"), dist="cosine"), lambda: _cosd() <= S("r"), {**FT, "S_r": "pos"})
ob("N01", "is_knn cosine", f + "is_knn_from", lambda: KN.is_knn_from("x", "y", pt=[0.5, -1.25], k=3, dist="cosine"), lambda: _cosd() <= _cosd().bottom_k(k=3).max(), FT, min_rows=6)
ob("N01", "is_knn haversine", f + "is_knn_from", lambda: KN.is_knn_from("x", "y", pt=[0.5, -1.25], k=3, dist="h"), lambda: hv(c("x"), c("y"), L(0.5), L(-1.25)) <= hv(c("x"), c("y"), L(0.5), L(-1.25)).bottom_k(k=3).max(), FT, min_rows=6)
ob("N02", "within haversine", f + "within_dist_from", lambda: KN.within_dist_from("x", "y", pt=[0.5, -1.25], r=S("r"), dist="h"), lambda: hv(c("x"), c("y"), L(0.5), L(-1.25)) <= S("r"), {**FT, "S_r": "pos"})

# ------------------------------------------------------------------ R01 - R05
f = "exprs.expr_linear."
ms = lambda x: c(x).sum() / N()
sx = lambda: ((c("x") - ms("x")) * (c("y") - ms("y"))).sum() / ((c("x") - ms("x")) ** 2).sum()
for wt in (None, "w"):
    W = (lambda e: e * c("w")) if wt else (lambda e: e)
    mu = (lambda z: (c("w") * c(z)).sum() / c("w").sum()) if wt else ms
    be1 = lambda W=W, mu=mu: W((c("x") - mu("x")) * (c("y") - mu("y"))).sum() / W((c("x") - mu("x")) ** 2).sum()
    al1 = lambda be1=be1, mu=mu: mu("y") - be1() * mu("x")
    be0 = lambda W=W: W(c("x") * c("y")).sum() / W(c("x") ** 2).sum()
    ob("R01", f"simple bias pred {wt}", f + "simple_lin_reg", lambda wt=wt: LR.simple_lin_reg("x", "y", add_bias=True, weights=wt, return_pred=True),
       lambda be1=be1, al1=al1: pl.struct(pred=be1() * c("x") + al1(), resid=c("y") - be1() * c("x") - al1()), XYW, tol=1e-5)
    ob("R01", f"simple pred {wt}", f + "simple_lin_reg", lambda wt=wt: LR.simple_lin_reg("x", "y", weights=wt, return_pred=True), lambda be0=be0: pl.struct(pred=be0() * c("x"), resid=c("y") - be0() * c("x")), XYW, tol=1e-5)
    ob("R01", f"simple coef {wt}", f + "simple_lin_reg", lambda wt=wt: LR.simple_lin_reg("x", "y", weights=wt), lambda be0=be0: be0().implode(), XYW, tol=1e-5)
    ob("R01", f"simple bias coef {wt}", f + "simple_lin_reg", lambda wt=wt: LR.simple_lin_reg("x", "y", add_bias=True, weights=wt), lambda be1=be1, al1=al1: be1().append(al1()).implode(), XYW, tol=1e-5)
X2 = {"x": "real", "z": "real", "y": "real", "w": "pos", "y2": "real"}
NE = dict(nullable=("x", "y", "z"))


def lrk(**k):
    return {"bias": False, "null_policy": "skip", "l1_reg": 0.0, "l2_reg": 0.0, "solver": "qr", "tol": 1e-5, "weighted": False, **k}


for pid, nm, kw, sk in (("R01", "ols", {}, {}), ("R01", "ridge bias", {"l2_reg": 0.5, "add_bias": True}, {"l2_reg": 0.5, "bias": True}), ("R01", "cholesky", {"solver": "choleskey"}, {"solver": "choleskey"}),
                        ("R05", "lasso", {"l1_reg": 0.25, "tol": 1e-7, "add_bias": True}, {"l1_reg": 0.25, "tol": 1e-7, "bias": True}), ("R05", "elastic net", {"l1_reg": 0.25, "l2_reg": 0.125}, {"l1_reg": 0.25, "l2_reg": 0.125}),
                        ("R02", "policy zero", {"null_policy": "zero"}, {"null_policy": "zero"}), ("R02", "policy raise", {"null_policy": "raise"}, {"null_policy": "raise"}), ("R02", "policy number", {"null_policy": "1.5"}, {"null_policy": "1.5"})):
    ob(pid, f"{nm} coefficients", f + "lin_reg", lambda kw=kw: LR.lin_reg("x", "z", target="y", **kw), lambda sk=sk: P("pl_lstsq", [c("y"), c("x"), c("z")], lrk(**sk), returns_scalar=True, pass_name_to_apply=True), X2, **NE)
    ob(pid, f"{nm} predictions", f + "lin_reg", lambda kw=kw: LR.lin_reg("x", "z", target="y", return_pred=True, **kw), lambda sk=sk: P("pl_lstsq_pred", [c("y"), c("x"), c("z")], lrk(**sk), pass_name_to_apply=True), X2, **NE)
    if pid != "R05":
        ob(pid, f"{nm} weighted", f + "lin_reg", lambda kw=kw: LR.lin_reg("x", "z", target="y", weights="w", return_pred=True, **kw), lambda sk=sk: P("pl_lstsq_pred", [c("w").cast(F64), c("y"), c("x"), c("z")], lrk(weighted=True, **sk), pass_name_to_apply=True), X2, **NE)
mk_ = lambda **k: {"bias": True, "null_policy": "skip", "solver": "qr", "last_target_idx": 2, "l2_reg": 0.5, **k}
ob("R01", "multi target", f + "lin_reg", lambda: LR.lin_reg("x", "z", target=["y", "y2"], add_bias=True, l2_reg=0.5), lambda: P("pl_lstsq_multi", [c("y").alias("target_0"), c("y2").alias("target_1"), c("x"), c("z")], mk_(), returns_scalar=True, pass_name_to_apply=True), X2, **NE)
ob("R01", "multi target predictions", f + "lin_reg", lambda: LR.lin_reg("x", "z", target=["y", "y2"], add_bias=True, l2_reg=0.5, return_pred=True), lambda: P("pl_lstsq_multi_pred", [c("y").alias("target_0"), c("y2").alias("target_1"), c("x"), c("z")], mk_(), pass_name_to_apply=True), X2, **NE)
ob("R01", "single target list", f + "lin_reg", lambda: LR.lin_reg("x", "z", target=["y"], add_bias=True, weights="w", l2_reg=0.5), lambda: P("pl_lstsq", [c("w").cast(F64), c("y"), c("x"), c("z")], lrk(bias=True, l2_reg=0.5, weighted=True), returns_scalar=True, pass_name_to_apply=True), X2, **NE)
ob("R01", "rcond", f + "lin_reg_w_rcond", lambda: LR.lin_reg_w_rcond("x", "z", target="y", rcond=1e-3, l2_reg=0.5), lambda: P("pl_lstsq_w_rcond", [c("y"), c("x"), c("z")], {"bias": False, "null_policy": "raise", "l1_reg": 0.0, "l2_reg": 0.5, "solver": "", "tol": 1e-3}, pass_name_to_apply=True), X2, **NE)
rk = lambda se: {"bias": True, "null_policy": "raise", "l1_reg": 0.0, "l2_reg": 0.0, "solver": "qr", "tol": 0.0, "std_err": se}
for se in ("se", "hc0", "hc1", "hc2", "hc3"):
    ob("R01", f"report {se}", f + "lin_reg_report", lambda se=se: LR.lin_reg_report("x", "z", target="y", add_bias=True, std_err=se), lambda se=se: P("pl_lin_reg_report", [c("y").var(), c("y"), c("x"), c("z")], rk(se), changes_length=True, pass_name_to_apply=True), X2)
ob("R01", "report weighted", f + "lin_reg_report", lambda: LR.lin_reg_report("x", "z", target="y", weights="w", add_bias=True), lambda: P("pl_wls_report", [c("w").cast(F64), c("y").var(), c("y"), c("x"), c("z")], rk("se"), changes_length=True, pass_name_to_apply=True), X2)
for b in (True, False):
    ob("R03", f"recursive {b}", f + "recursive_lin_reg", lambda b=b: LR.recursive_lin_reg("x", "z", target="y", start_with=5, add_bias=b, l2_reg=0.5), lambda b=b: P("pl_recursive_lstsq", [c("y"), c("x"), c("z")], {"null_policy": "raise", "n": 5, "bias": b, "lambda": 0.5, "min_size": 0}, pass_name_to_apply=True), X2, **NE)
    ob("R03", f"rolling {b}", f + "rolling_lin_reg", lambda b=b: LR.rolling_lin_reg("x", "z", target="y", window_size=6, add_bias=b, l2_reg=0.5, null_policy="skip"), lambda b=b: P("pl_rolling_lstsq", [c("y"), c("x"), c("z")], {"null_policy": "skip", "n": 6, "bias": b, "lambda": 0.5, "min_size": 3 if b else 2}, pass_name_to_apply=True), X2, **NE)
    ob("R03", f"rolling min {b}", f + "rolling_lin_reg", lambda b=b: LR.rolling_lin_reg("x", "z", target="y", window_size=6, add_bias=b, min_valid_rows=4, null_policy="skip"), lambda b=b: P("pl_rolling_lstsq", [c("y"), c("x"), c("z")], {"null_policy": "skip", "n": 6, "bias": b, "lambda": 0.0, "min_size": 4}, pass_name_to_apply=True), X2, **NE)

# ------------------------------------------------------------------ S01 - S03
f = "exprs.string."
ST2 = {"s": "str", "t": "str"}
for par in (False, True):
    pb = lambda par=par: L(par, dtype=pl.Boolean)
    st = [c("s"), c("t")]
    for nm, sym, kw in (("str_hamming", "pl_hamming", {}), ("str_hamming", "pl_hamming_padded", {"pad": True}), ("str_d_leven", "pl_d_levenshtein", {}), ("str_d_leven", "pl_d_levenshtein_sim", {"return_sim": True}),
                        ("str_leven", "pl_levenshtein", {}), ("str_leven", "pl_levenshtein_sim", {"return_sim": True}), ("str_lcs_seq", "pl_lcs_sim", {}), ("str_lcs_seq", "pl_lcs_seq", {"return_sim": False}),
                        ("str_osa", "pl_osa", {}), ("str_osa", "pl_osa_sim", {"return_sim": True}), ("str_fuzz", "pl_fuzz", {})):
        for pid in ("S01", "N04"):
            ob(pid, f"{sym} {par}", f + nm, lambda nm=nm, kw=kw, par=par: getattr(SR, nm)("s", "t", parallel=par, **kw), lambda sym=sym, pb=pb: P(sym, [c("s"), c("t"), pb()]), ST2, nullable=("s", "t"))
    for pid in ("S01", "N04"):
        ob(pid, f"jaro {par}", f + "str_jaro", lambda par=par: SR.str_jaro("s", "t", parallel=par), lambda pb=pb: P("pl_jaro", [c("s"), c("t"), pb()], is_elementwise=True), ST2, nullable=("s", "t"))
        ob(pid, f"jaro winkler {par}", f + "str_jw", lambda par=par: SR.str_jw("s", "t", weight=0.15, parallel=par), lambda pb=pb: P("pl_jw", [c("s"), c("t"), L(0.15), pb()]), ST2, nullable=("s", "t"))
        ob(pid, f"leven filter {par}", f + "filter_by_levenshtein", lambda par=par: SR.filter_by_levenshtein("s", "t", 3, par), lambda pb=pb: P("pl_levenshtein_filter", [c("s"), c("t"), L(3, dtype=u32), pb()]), ST2, nullable=("s", "t"))
        ob(pid, f"hamming filter {par}", f + "filter_by_hamming", lambda par=par: SR.filter_by_hamming("s", "t", 3, parallel=par), lambda pb=pb: P("pl_hamming_filter", [c("s"), c("t"), L(3, dtype=u32), pb()]), ST2, nullable=("s", "t"))
    for nm, sym in (("str_jaccard", "pl_str_jaccard"), ("str_overlap_coeff", "pl_overlap_coeff"), ("str_sorensen_dice", "pl_sorensen_dice")):
        ob("S02", f"{nm} {par}", f + nm, lambda nm=nm, par=par: getattr(SR, nm)("s", "t", 3, par), lambda sym=sym, pb=pb: P(sym, [c("s"), c("t"), L(3, dtype=u32), pb()]), ST2, nullable=("s", "t"))
    ob("S02", f"tversky {par}", f + "str_tversky_sim", lambda par=par: SR.str_tversky_sim("s", "t", 0.25, 0.75, 3, par), lambda pb=pb: P("pl_tversky_sim", [c("s"), c("t"), L(3, dtype=u32), L(0.25), L(0.75), pb()]), ST2, nullable=("s", "t"))
for me in ("lv", "hamming"):
    ob("S01", f"nearest {me}", f + "str_nearest", lambda me=me: SR.str_nearest("s", "word", threshold=4, metric=me), lambda me=me: P("pl_nearest_str", [c("s")], {"word": "word", "metric": me, "threshold": 4}, returns_scalar=True), ST2)
lv = lambda w: P("pl_levenshtein_sim", [c("s"), L(w, dtype=pl.String), L(False)])
for _m, _sy, _ex in (("dlv", "pl_d_levenshtein_sim", []), ("jw", "pl_jw", [L(0.1)]), ("osa", "pl_osa_sim", [])):
    ob("S01", f"vocab {_m}", f + "similar_to_vocab", lambda _m=_m: SR.similar_to_vocab("s", ["ab", "cd"], 0.5, metric=_m, strategy="any"),
       lambda _sy=_sy, _ex=_ex: (P(_sy, [c("s"), L("ab", dtype=pl.String), *_ex, L(False)]) >= 0.5) | (P(_sy, [c("s"), L("cd", dtype=pl.String), *_ex, L(False)]) >= 0.5), ST2)
ob("S01", "vocab any", f + "similar_to_vocab", lambda: SR.similar_to_vocab("s", ["ab", "cd"], 0.5, strategy="any"), lambda: (lv("ab") >= 0.5) | (lv("cd") >= 0.5), ST2)
ob("S01", "vocab all", f + "similar_to_vocab", lambda: SR.similar_to_vocab("s", ["ab", "cd"], 0.5, strategy="all"), lambda: (lv("ab") >= 0.5) & (lv("cd") >= 0.5), ST2)
ob("S01", "vocab avg", f + "similar_to_vocab", lambda: SR.similar_to_vocab("s", ["ab", "cd"], 0.5, strategy="avg"), lambda: pl.sum_horizontal(lv("ab"), lv("cd")) >= 1.0, ST2)
for nm, sym in (("is_stopword", "pl_is_stopword"), ("to_camel_case", "pl_to_camel"), ("to_snake_case", "pl_to_snake"), ("to_pascal_case", "pl_to_pascal"), ("to_constant_case", "pl_to_constant"), ("remove_diacritics", "remove_diacritics"), ("replace_non_ascii", "remove_non_ascii"), ("normalize_whitespace", "normalize_whitespace")):
    ob("S03", nm, f + nm, lambda nm=nm: getattr(SR, nm)("s"), lambda sym=sym: P(sym, [c("s")], is_elementwise=True), ST2, nullable=("s",))
for ns in (True, False):
    ob("S03", f"snowball {ns}", f + "str_snowball", lambda ns=ns: SR.str_snowball("s", ns), lambda ns=ns: P("pl_snowball_stem", [c("s"), L(ns)], is_elementwise=True), ST2, nullable=("s",))
ob("S03", "map words", f + "map_words", lambda: SR.map_words("s", {"a": "b", "c": "d"}), lambda: P("map_words", [c("s")], {"mapping": {"a": "b", "c": "d"}}, is_elementwise=True), ST2, nullable=("s",))
for fm in ("NFC", "NFKD"):
    ob("S03", f"normalize {fm}", f + "normalize_string", lambda fm=fm: SR.normalize_string("s", fm), lambda fm=fm: P("normalize_string", [c("s")], {"form": fm}, is_elementwise=True), ST2, nullable=("s",))
ob("S03", "tokenize", f + "str_tokenize", lambda: SR.str_tokenize("s"), lambda: c("s").str.extract_all(r"(?u)\b\w\w+\b"), ST2, nullable=("s",))
ob("S03", "numbers", f + "extract_numbers", lambda: SR.extract_numbers("s"), lambda: c("s").str.extract_all(r"(\d*\.?\d+)"), ST2, nullable=("s",))
ob("S03", "numbers comma", f + "extract_numbers", lambda: SR.extract_numbers("s", ignore_comma=True, join_by="-"), lambda: c("s").str.replace_all(",", "").str.extract_all(r"(\d*\.?\d+)").list.join("-"), ST2, nullable=("s",))


def MARKING():
    return False


def _zsim(kw):
    z = exprvc_series(q)
    x = c("x")
    k = len(q)
    return P("pl_subseq_sim_cnt_zl2", [x.cast(F64), (L(z) - L(z).mean()) / L(z).std(), x.rolling_mean(window_size=k).slice(k - 1, None),
                                       pl.max_horizontal(x.rolling_var(window_size=k).slice(k - 1, None).fill_nan(1e-10), L(1e-10, dtype=F64))], kw, returns_scalar=True)


def exprvc_series(v):
    return pl.Series(name="", values=v, dtype=F64)


f = "exprs.ts_features."
ob("F06", "similar z-normalised", f + "query_similar_count", lambda: TS.query_similar_count(q, "x", 2.0, metric="sqzl2"), lambda: _zsim({"threshold": 2.0, "parallel": False}), {"x": "real"}, min_rows=12)
ob("F06", "similar z-normalised parallel", f + "query_similar_count", lambda: TS.query_similar_count(q, "x", 1.5, metric="sqzl2", parallel=True), lambda: _zsim({"threshold": 1.5, "parallel": True}), {"x": "real"}, min_rows=12)


import exprfit  # noqa: E402,F401  the contracts of the learning transforms and of frame functions
