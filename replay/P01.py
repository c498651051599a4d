import numpy as np, polars as pl, math, json
import polars.selectors as cs
from polars_ds.modeling.pipeline import Pipeline, Blueprint
from polars_ds.modeling import transforms as T
from common import allclose
RULE = "random blueprints of 1..6 steps (imputation, scaling, encoders, filters, SQL, selection, renaming, custom expressions, casing) over frames with numeric, string, boolean and missing values; each is materialised, applied to the training and to unseen frames, eagerly and lazily, serialised and reloaded; the oracle applies the same operations one after another with values learned from the training frame; distinct by (clause, input)"


def frame(rng, n):
    def miss(v, p=.12):
        return [None if rng.random() < p else q for q in v]
    return pl.DataFrame({
        "A": miss(rng.normal(0, 2, n).round(3).tolist()), "B": miss(rng.integers(-5, 20, n).tolist()),
        "C": rng.normal(5, 1, n).round(3), "d": miss(rng.choice(["x", "y", "z w"], n).tolist()),
        "e": rng.choice(["lo", "mid", "hi"], n), "F": rng.random(n) < .5, "t": rng.integers(0, 2, n)},
        schema={"A": pl.Float64, "B": pl.Int64, "C": pl.Float64, "d": pl.String, "e": pl.String, "F": pl.Boolean, "t": pl.Int64})


def eq(a, b, tol=1e-9):
    return a.columns == b.columns and len(a) == len(b) and all(a[c].dtype == b[c].dtype and allclose(a[c], b[c], tol, tol) for c in a.columns)


def steps(rng, n, low, xc=None):
    """list of (name, blueprint action, oracle: (train, frame) -> frame); the oracle learns from train"""
    A, B, C, d, e, F = ["a", "b", "c", "d", "e", "f"] if low else ["A", "B", "C", "d", "e", "F"]

    def st(f):  # statistic-free step
        return lambda tr, df: f(df)
    te = {k: v for k, v in dict(min_samples_leaf=int(rng.integers(1, 30)), smoothing=float(rng.choice([.5, 3., 20.])), default=[0.25, "mean", "zero", None][rng.integers(4)], target=C).items() if rng.random() < .6}
    we = {k: v for k, v in dict(default=[-1.5, "zero", None][rng.integers(3)], target=pl.col("t")).items() if rng.random() < .6}
    bias = bool(rng.integers(2))
    m = ["mean", "median"][rng.integers(2)]
    sm = ["standard", "min_max", "abs_max"][rng.integers(3)]

    def stat(tr, c, w):
        s = tr[c]
        return {"mean": s.mean, "median": s.median, "min": s.min, "max": s.max, "std": lambda: s.std(ddof=0)}[w]()

    def o_scale(tr, df):
        cols = [c for c in (A, C)]
        ex = []
        for c in cols:
            s = tr[c].drop_nulls()
            if sm == "standard":
                ex.append((pl.col(c) - s.mean()) / s.std(ddof=0))
            elif sm == "min_max":
                ex.append((pl.col(c) - s.min()) / (s.max() - s.min()))
            else:
                ex.append(pl.col(c) / max(abs(s.min()), abs(s.max())))
        return df.with_columns(ex)

    def o_onehot(tr, df):
        ex = []
        for c in (d, e):
            if tr[c].dtype != pl.String:
                raise ValueError("an earlier step encoded it: not a column this step is for")
            u = sorted(tr[c].drop_nulls().unique().to_list())
            if len(u) > 1:
                ex += [pl.Series(f"{c}_{v}", [int(q == v) for q in df[c].to_list()], dtype=pl.UInt8) for v in u]
        if not ex:
            raise ValueError("documented as an error")
        return df.with_columns(ex).drop([d, e])
    pool = [
        ("impute", lambda b: b.impute([A, C], method=m), lambda tr, df: df.with_columns(pl.col(c).fill_null(stat(tr, c, m)) for c in (A, C))),
        ("impute_sel", lambda b: b.impute(cs.float(), method=m), lambda tr, df: df.with_columns(pl.col(c).fill_null(stat(tr, c, m)) for c in tr.select(cs.float()).columns)),
        ("impute_int", lambda b: b.impute([B], method=m), lambda tr, df: df.with_columns(pl.col(B).fill_null(stat(tr, B, m)))),
        ("cond_mode", lambda b: b.conditional_impute({d: f"{d} = 'x'"}, method="mode"), None),
        ("mode", lambda b: b.impute([B], method="mode"), None),
        ("cond_impute", lambda b: b.conditional_impute({C: f"{C} > 5"}, method=m),
         lambda tr, df: df.with_columns(pl.when(pl.col(C) > 5).then(getattr(tr[C].filter(~(tr[C] > 5)), m)()).otherwise(pl.col(C)).alias(C))),
        ("scale", lambda b: b.scale([A, C], method=sm), o_scale),
        ("scale_expr", lambda b: b.scale(pl.col(A, C), method=sm), o_scale),
        ("center", lambda b: b.center([A, B]), lambda tr, df: df.with_columns(pl.col(c) - tr[c].mean() for c in (A, B))),
        ("robust", lambda b: b.robust_scale([C], .25, .75),
         lambda tr, df: df.with_columns((pl.col(C) - tr[C].quantile(.25, "midpoint")) / (tr[C].quantile(.75, "midpoint") - tr[C].quantile(.25, "midpoint")))),
        ("winsor", lambda b: b.winsorize([A, C], .1, .9), lambda tr, df: df.with_columns(pl.col(c).clip(tr[c].quantile(.1, "nearest"), tr[c].quantile(.9, "nearest")) for c in (A, C))),
        ("filter", lambda b: b.filter(pl.col(C) > 4.), st(lambda df: df.filter(pl.col(C) > 4.))),
        ("filter_sql", lambda b: b.filter(f"{C} > 4 and t is not null"), st(lambda df: df.filter(pl.col(C) > 4))),
        ("sql", lambda b: b.sql_transform(f'select *, "{C}" * 2 as dbl from df'), st(lambda df: df.with_columns(dbl=pl.col(C) * 2))),
        ("bools", lambda b: b.cast_bools(), st(lambda df: df.with_columns(pl.col(F).cast(pl.UInt8)))),
        ("nan", lambda b: b.nan_to_null(), st(lambda df: df.with_columns(cs.float().fill_nan(None)))),
        ("i2f", lambda b: b.int_to_float(f32=False), st(lambda df: df.with_columns(cs.integer().cast(pl.Float64)))),
        ("poly", lambda b: b.polynomial_features([A, C], 2, interaction_only=True), st(lambda df: df.with_columns((pl.col(A) * pl.col(C)).alias(f"{A}*{C}")))),
        ("expr", lambda b: b.append_expr((pl.col(C) - pl.col(A)).alias("diff"), pl.col(C).log().alias("lg")), st(lambda df: df.with_columns((pl.col(C) - pl.col(A)).alias("diff"), pl.col(C).log().alias("lg")))),
        ("sel", lambda b: b.select(cs.all() - cs.boolean()), st(lambda df: df.select(cs.all() - cs.boolean()))),
        ("onehot", lambda b: b.one_hot_encode([d, e]), o_onehot),
        ("rankhot", lambda b: b.rank_hot_encode(e, ["lo", "mid", "hi"]),
         st(lambda df: df.with_columns(pl.Series(f"{e}>={v}", [{"lo": 0, "mid": 1, "hi": 2}[q] >= i for q in df[e]]).cast(pl.Int8) for i, v in ((1, "mid"), (2, "hi"))).drop(e))),
        ("drop", lambda b: b.drop([B]), st(lambda df: df.drop(B))),
        ("rename", lambda b: b.rename({A: C, C: A}), st(lambda df: df.select(*[c for c in df.columns if c not in (A, C)], pl.col(A).alias(C), pl.col(C).alias(A)))),
        ("rename1", lambda b: b.rename({B: "bb"}), st(lambda df: df.select(*[c for c in df.columns if c != B], pl.col(B).alias("bb")))),
        ("dict", lambda b: b.append_step_from_dict({"name": "center", "args": [[C]]}), lambda tr, df: df.with_columns(pl.col(C) - tr[C].mean())),
        ("fitfunc", lambda b: b.append_fit_func(lambda df, cols, k: [pl.col(c) * k - df.lazy().select(pl.col(c).max()).collect().item() for c in cols], [C], k=2),
         lambda tr, df: df.with_columns(pl.col(C) * 2 - tr[C].max())),
        ("cs_center", lambda b: b.center(cs.numeric()), lambda tr, df: df.with_columns(pl.col(c) - tr[c].mean() for c in tr.select(cs.numeric()).columns if c not in ("t", xc))),
        ("cs_scale", lambda b: b.scale(cs.float(), method="standard"), lambda tr, df: df.with_columns((pl.col(c) - tr[c].mean()) / tr[c].std(ddof=0) for c in tr.select(cs.float()).columns if c not in ("t", xc))),
        ("i2f32", lambda b: b.int_to_float(), st(lambda df: df.with_columns(cs.integer().cast(pl.Float32)))),
        ("expr_sel", lambda b: b.append_expr(pl.all().exclude(B), pl.col(C).alias("c2"), is_select=True), st(lambda df: df.select(pl.all().exclude(B), pl.col(C).alias("c2")))),
        ("fitfunc_t", lambda b: b.append_fit_func(lambda df, cols, target: [(pl.col(c) - df.lazy().select(pl.col(target).mean()).collect().item()).alias("ft") for c in cols], [C]),
         lambda tr, df: df.with_columns((pl.col(C) - tr["t"].mean()).alias("ft"))),
        ("fitfunc_xt", lambda b: b.append_fit_func(lambda df, cols, target: [(pl.col(c) - df.lazy().select(pl.col(target).mean()).collect().item()).alias("fx") for c in cols], [C], target=A),
         lambda tr, df: df.with_columns((pl.col(C) - tr[A].mean()).alias("fx"))),
        # the definition of these four is decided under P02; here: the blueprint forwards every argument, learns from the frame of that step, and takes its own target by default
        ("target", lambda b: b.target_encode([d, e], **te), lambda tr, df: df.with_columns(T.target_encode(tr, [d, e], **{"target": "t", **te}))),
        ("woe", lambda b: b.woe_encode(e, **we), lambda tr, df: df.with_columns(T.woe_encode(tr, [e], **{"target": "t", **we}))),
        ("iv", lambda b: b.iv_encode(e, **we), lambda tr, df: df.with_columns(T.iv_encode(tr, [e], **{"target": "t", **we}))),
        ("linear", lambda b: b.linear_impute([C], target=A, add_bias=bias), lambda tr, df: df.with_columns(T.linear_impute(tr, [C], target=A, add_bias=bias))),
        ("linear_t", lambda b: b.linear_impute(cs.by_name(C, "t"), target=pl.col(A), add_bias=bias), lambda tr, df: df.with_columns(T.linear_impute(tr, [C], target=A, add_bias=bias)) if xc != C else None),
    ]
    if xc is not None:  # an explicitly excluded column: only selector steps can be affected
        pool = [q for q in pool if q[0] in ("cs_center", "cs_scale", "filter", "expr", "drop", "rename1", "i2f", "nan")]
    return [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(1, n))]]


def no_nonfinite(df):
    fl = df.select(cs.float())
    return not fl.width or fl.select(pl.all_horizontal((cs.float().is_finite() | cs.float().is_null()).all())).item()


def casing(C):
    """every combination of the two casing switches and the two feature checks, through each way of saving a pipeline"""
    import tempfile, os, itertools
    rng = C.rng
    for low, up, ein, eout in itertools.product([False, True], repeat=4):
        n = int(rng.integers(3, 12))
        df = pl.DataFrame({"Ab": rng.normal(0, 2, n).round(2), "cD": rng.normal(1, 3, n).round(2), "ef": rng.integers(0, 9, n), "GH": rng.integers(0, 2, n)})
        f = str.lower if low else str.upper if up else str
        C.begin("casing and feature checks survive saving and loading", lowercase=low, uppercase=up, ensure_in=ein, ensure_out=eout, frame=df)
        a, b = f("Ab"), f("cD")
        bp = Blueprint(df, name="c", target=f("GH"), lowercase=low, uppercase=up).center([a]).append_expr((pl.col(b) * 2).alias("new"))
        p = C.call("casing:materialize", bp.materialize)
        if p is None:
            continue
        p.ensure_features_io(ein, eout)
        want = df.rename(f).with_columns(pl.col(a) - df["Ab"].mean(), new=pl.lit(0.0)).with_columns((pl.col(b) * 2).alias("new"))
        with tempfile.TemporaryDirectory() as d:
            p.to_json(os.path.join(d, "p.json"))
            forms = {"original": p, "dict": Pipeline.from_dict(p.to_dict()), "string": Pipeline.from_json_str(p.to_json()), "file": Pipeline.from_json(os.path.join(d, "p.json")),
                     "twice": Pipeline.from_json_str(Pipeline.from_json_str(p.to_json()).to_json())}
        more = df.with_columns(zz=pl.lit(1))
        for k, q in forms.items():
            r = C.outcome(q.transform, df)
            C.ok(r[0] == "ok" and eq(r[1], want), "casing:" + k, r[1], want)
            r = C.outcome(q.transform, more)
            if ein:
                C.ok(r[0] == "err", "casing:extra:" + k, r[1], "refused")
            else:
                w = want.columns if eout else [*df.rename(f).columns, f("zz"), "new"]
                C.ok(r[0] == "ok" and r[1].columns == w, "casing:columns:" + k, r[1] if r[0] == "err" else r[1].columns, w)
            C.ok((q.lowercase, q.uppercase, q.ensure_features_in, q.ensure_features_out, q.target) == (low, up, ein, eout, f("GH")), "casing:fields:" + k)


def run(C):
    rng = C.rng
    casing(C)
    it = 0
    while C.time_ok() and it < (1200 if not C.thorough else 30000):
        it += 1
        train, other = frame(rng, int(rng.integers(25, 60))), frame(rng, int(rng.integers(1, 20)))
        low = it % 4 == 0
        xc = [None, None, None, ("a" if low else "A")][rng.integers(4)]
        seq = steps(rng, 6, low, xc)
        fix = (lambda df: df.rename(lambda c: c.lower())) if low else (lambda df: df)
        C.begin("a pipeline applies its steps in order with the values learned from the training frame", steps=[s[0] for s in seq], lowercase=low, exclude=xc, train=train, other=other)
        bp = Blueprint(train.lazy() if it % 2 else train, target="t", lowercase=low, **({} if xc is None else {"exclude": [xc, "t"] if it % 3 else [xc]}))
        try:
            tr = fix(train)
            ot = fix(other)
            finite = True
            known = all(s[2] is not None for s in seq)
            if known:
                for s in seq:
                    nt, ot = s[2](tr, tr), s[2](tr, ot)
                    tr = nt
                    finite &= no_nonfinite(tr)
            valid = True
        except Exception:
            valid = known = False  # a step refers to a column an earlier one removed
        if not valid:
            continue
        for s in seq:
            bp = s[1](bp)
        pipe = C.call("materialize:call", bp.materialize) if known else (C.outcome(bp.materialize)[1] if C.outcome(bp.materialize)[0] == "ok" else None)
        if pipe is None:
            continue
        got_t, got_o = C.outcome(pipe.transform, train), C.outcome(pipe.transform, other)
        tol = 1e-4 if any(s[0] == "i2f32" for s in seq) else 1e-9  # single-precision statistics
        if known:
            C.ok(got_t[0] == "ok" and eq(got_t[1], tr, tol), "transform:train:" + "+".join(s[0] for s in seq) if False else "transform:train", got_t[1], tr)
            C.ok(got_o[0] == "ok" and eq(got_o[1], ot, tol), "transform:unseen", got_o[1], ot)
        if got_t[0] != "ok":
            continue
        C.ok(got_t[1].columns == pipe.feature_names_out_, "names_out", got_t[1].columns, pipe.feature_names_out_)
        if "t" in got_t[1].columns and not any(s[0] in ("filter", "filter_sql") for s in seq):
            C.ok(got_t[1]["t"].cast(pl.Int64).equals(train["t"]), "target:untouched", got_t[1]["t"], train["t"])
        lz = pipe.transform(train, return_lazy=True)
        C.ok(isinstance(lz, pl.LazyFrame) and lz.collect().equals(got_t[1]), "lazy")
        C.ok(eq(pipe.transform(train.lazy()), got_t[1]), "lazy:input")
        if it % 3 == 0 and known:
            C.ok(eq(bp.fit().transform(train), got_t[1]), "fit")
            C.ok(eq(bp.transform(train), got_t[1]), "blueprint:transform")
            X, y = bp.transform(train, separate=True)
            C.ok(eq(X, got_t[1].drop("t")) and eq(y, got_t[1].select("t")), "blueprint:separate")
            X, y = pipe.transform(train, return_lazy=True, separate=True)
            C.ok(isinstance(X, pl.LazyFrame) and eq(X.collect(), got_t[1].drop("t")) and eq(y.collect(), got_t[1].select("t")), "separate:lazy")
        X, y = pipe.transform(train, separate=True)
        C.ok(y.columns == ["t"] and "t" not in X.columns and eq(X, got_t[1].drop("t")) and y["t"].equals(got_t[1]["t"]), "separate")
        C.begin("a pipeline reloaded from JSON transforms every frame identically", steps=[s[0] for s in seq], lowercase=low, train=train, other=other)
        if not (finite and no_nonfinite(got_t[1])):
            continue  # a statistic learned from such a column has no JSON representation
        js_ = pipe.to_json()
        p2 = C.call("json:call", Pipeline.from_json_str, js_)
        if p2 is not None:
            C.ok(eq(p2.transform(train), got_t[1]), "json:train")
            o2 = C.outcome(p2.transform, other)
            C.ok(o2[0] == got_o[0] and (o2[0] == "err" or eq(o2[1], got_o[1])), "json:unseen", o2[1], got_o[1])
            C.ok((p2.name, p2.target, p2.feature_names_in_, p2.feature_names_out_, p2.lowercase, p2.uppercase, p2.ensure_features_in, p2.ensure_features_out) ==
                 (pipe.name, pipe.target, pipe.feature_names_in_, pipe.feature_names_out_, pipe.lowercase, pipe.uppercase, pipe.ensure_features_in, pipe.ensure_features_out), "json:fields")
        C.begin("the feature checks accept exactly the fitted features and keep exactly the fitted outputs", steps=[s[0] for s in seq], lowercase=low, train=train)
        p3 = bp.materialize().ensure_features_io(True, True)
        if got_t[0] == "ok":
            r = C.outcome(p3.transform, train)
            ties = any(s[0] in ("mode", "cond_mode") for s in seq)  # any of tied modes may be learned
            C.ok(r[0] == "ok" and (r[1].columns == got_t[1].columns if ties else eq(r[1], got_t[1])), "ensure:in", r[1], "accepted")
            C.raises("ensure:extra", p3.transform, train.with_columns(zz=1))
            C.raises("ensure:missing", p3.transform, train.drop("C"))
            ex = train.with_columns(zz=pl.lit("q"))
            if not any(s[0] in ("onehot",) for s in seq):
                r = C.outcome(bp.materialize().transform, ex)
                C.ok(r[0] == "ok" and r[1].columns == got_t[1].columns, "ensure:out", r[1] if r[0] == "err" else r[1].columns, got_t[1].columns)
