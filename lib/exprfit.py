"""Contracts of the Python functions that learn from or filter whole frames (used by exprvc.py, see exprspec.py).

The training frame is a stand-in that answers every aggregate with an expression over columns T_x ("x of the training
frame").  What a transform returns is then an expression over the columns x of the frame it is applied to and over T_x,
and its contract says which statistics of the training frame it uses.  Learned values are opaque to the Python code."""
import contextlib, io, json as _json
import polars as pl
import exprvc
from exprspec import ob, c, L, P, F64, NU, LR

def train(e):
    """the expressions denoted by e (one per column it selects), read on the training frame"""
    def names(j):
        if isinstance(j, dict):
            for k, v in j.items():
                if k == "Columns":
                    return list(v)
                r = names(v)
                if r:
                    return r
        elif isinstance(j, list):
            for v in j:
                r = names(v)
                if r:
                    return r

    def put(j, c0):
        if isinstance(j, dict):
            return {"Column": c0 if "Columns" in j else "T_" + j["Column"]} if set(j) & {"Column", "Columns"} and len(j) == 1 else {k: put(v, c0) for k, v in j.items()}
        return [put(v, c0) for v in j] if isinstance(j, list) else j
    if isinstance(e, str):
        e = pl.col(e)
    j = exprvc.tree(e.meta.undo_aliases())
    if "Selector" in _json.dumps(j):
        raise exprvc.Unsupported("selector")
    return [pl.Expr.deserialize(io.BytesIO(_json.dumps(put(j, "T_" + n if n else None)).encode()), format="json") for n in (names(j) or [None])]


class Learned:
    """a learned list or struct series"""
    def __init__(self, e, name=None):
        self.e, self.name = e, name

    def __getitem__(self, i):
        if self.name is None:
            return self.e.list.get(i)
        j = exprvc.tree(self.e)
        return pl.Expr.deserialize(io.BytesIO(_json.dumps(j["Agg"]["Implode"] if "Agg" in j else j).encode()), format="json")


class Train:
    """the training frame: x, y, z numeric; s, t string"""
    schema_frame = pl.DataFrame({"x": [1.0], "y": [1.0], "z": [1.0], "s": ["a"], "t": ["a"]})

    def __init__(self, chain=()):
        self.chain = list(chain)

    def __getattr__(self, n):
        raise exprvc.Unsupported("the training frame is asked for " + n)

    def lazy(self):
        return self

    collect = lazy

    def select(self, *es, **kw):
        flat = []
        for e in list(es) + [v.alias(k) for k, v in kw.items()]:
            flat += [e] if isinstance(e, (str, pl.Expr)) else list(e)
        return Train(self.chain + [flat])

    @property
    def columns(self):
        return self.collect_schema().names()

    def row(self, i):
        e, = self.chain          # statistics of the frame itself, not of a derived one
        return tuple(t for x in e for t in train(x))

    def item(self, *ij):
        e, = self.row(0)
        return Learned(e) if "FfiPlugin" in str(exprvc.tree(e)) else e

    def get_columns(self):
        e, = self.chain
        return [Learned(t, x.meta.output_name()) for x in e for t in train(x)]

    def collect_schema(self):
        fr = self.schema_frame.lazy()
        for e in self.chain:
            fr = fr.select(e)
        return fr.collect_schema()


@contextlib.contextmanager
def lit_through():
    old = pl.lit
    pl.lit = lambda v, *a, **k: v if isinstance(v, pl.Expr) else old(v, *a, **k)
    try:
        yield
    finally:
        pl.lit = old


from polars_ds.modeling import transforms as TR


def fitted(fn):
    def call():
        try:
            with lit_through():
                return pl.struct(list(fn(Train())))
        except Exception as e:
            raise exprvc.Unsupported(f"{type(e).__name__}: {e}"[:200])
    return call


def applied(fn):
    def run(df):
        tr = df.select(pl.col(n).alias(n[2:]) for n in df.columns if n.startswith("T_"))
        return df.select(pl.struct(list(fn(tr))).alias("v"))["v"].to_list()
    return run


def st(**es):
    return pl.struct(*[e.alias(n) for n, e in es.items()])


f = "modeling.transforms."
XYT = {"x": "real", "y": "real", "T_x": "real", "T_y": "real"}
NXY = ("x", "y", "T_x", "T_y")
tc = lambda n: c("T_" + n)
imp = lambda n, m: pl.when(c(n).is_not_null()).then(c(n)).otherwise(m)
P2 = lambda name, fn, call, spec, types=XYT, **k: ob("P02", name, f + fn, fitted(call), spec, types, real=applied(call), nullable=[n for n in NXY + ("s", "T_s", "z", "T_z") if n in types], says="its definition over the training frame", **k)
mean_ = lambda e: e.mean()
P2("impute mean", "impute", lambda F: TR.impute(F, ["x", "y"]), lambda: st(x=imp("x", mean_(tc("x"))), y=imp("y", mean_(tc("y")))))
P2("impute median", "impute", lambda F: TR.impute(F, ["y", "x"], "median"), lambda: st(y=imp("y", tc("y").median()), x=imp("x", tc("x").median())))
P2("impute mode", "impute", lambda F: TR.impute(F, ["x"], "mode"), lambda: st(x=imp("x", tc("x").drop_nulls().mode().first())), no_eval=True)
cimp = lambda n, cond, m: pl.when(cond).then(m).otherwise(c(n))
for _m, _g in (("mean", mean_), ("median", lambda e: e.median())):
    P2("conditional impute " + _m, "conditional_impute", lambda F, _m=_m: TR.conditional_impute(F, {"x": c("y") > 0, "y": c("x").is_null()}, _m),
       lambda _g=_g: st(x=cimp("x", c("y") > 0, _g(tc("x").filter(~(tc("y") > 0)))), y=cimp("y", c("x").is_null(), _g(tc("y").filter(tc("x").is_not_null())))))
P2("center", "center", lambda F: TR.center(F, ["x", "y"]), lambda: st(x=c("x") - mean_(tc("x")), y=c("y") - mean_(tc("y"))))
P2("scale standard", "scale", lambda F: TR.scale(F, ["x", "y"]), lambda: st(**{n: (c(n) - tc(n).mean()) / tc(n).std(ddof=0) for n in "xy"}))
P2("scale min_max", "scale", lambda F: TR.scale(F, ["x", "y"], "min_max"), lambda: st(**{n: (c(n) - tc(n).min()) / (tc(n).max() - tc(n).min()) for n in "xy"}))
P2("scale abs_max", "scale", lambda F: TR.scale(F, ["x", "y"], "abs_max"), lambda: st(**{n: c(n) / pl.max_horizontal(tc(n).min().abs(), tc(n).max().abs()) for n in "xy"}))
_q = lambda n, p, i: tc(n).quantile(p, interpolation=i)
P2("robust scale", "robust_scale", lambda F: TR.robust_scale(F, ["x", "y"], 0.125, 0.75), lambda: st(**{n: (c(n) - _q(n, .125, "midpoint")) / (_q(n, .75, "midpoint") - _q(n, .125, "midpoint")) for n in "xy"}))
P2("winsorize", "winsorize", lambda F: TR.winsorize(F, ["x", "y"], 0.125, 0.75, "lower"),
   lambda: st(**{n: pl.when(c(n) > _q(n, .75, "lower")).then(_q(n, .75, "lower")).when(c(n) < _q(n, .125, "lower")).then(_q(n, .125, "lower")).otherwise(c(n)) for n in "xy"}))
XYZ3 = {"x": "real", "y": "real", "z": "real"}
P2("polynomial", "polynomial_features", lambda F: TR.polynomial_features(["x", "y"], 2), lambda: st(**{"x*x": c("x") ** 2, "x*y": c("x") * c("y"), "y*y": c("y") ** 2}), XYZ3)
P2("polynomial interactions", "polynomial_features", lambda F: TR.polynomial_features(["x", "y", "z"], 3, True),
   lambda: st(**{"x*x*y": c("x") ** 2 * c("y"), "x*x*z": c("x") ** 2 * c("z"), "x*y*y": c("x") * c("y") ** 2, "x*y*z": c("x") * c("y") * c("z"), "x*z*z": c("x") * c("z") ** 2,
                 "y*y*z": c("y") ** 2 * c("z"), "y*z*z": c("y") * c("z") ** 2}), XYZ3)
for _b in (False, True):
    P2(f"linear impute bias={_b}", "linear_impute", lambda F, _b=_b: TR.linear_impute(F, ["x", "y"], "z", _b),
       lambda _b=_b: _linimp(_b), {**XYT, "z": "real", "T_z": "real"}, no_eval=True)


def _linimp(bias):
    co = train(LR.lin_reg(c("x"), c("y"), target=c("z"), add_bias=bias, null_policy="skip"))[0]
    s = pl.sum_horizontal([c("x") * co.list.get(0), c("y") * co.list.get(1)] + ([co.list.get(-1)] if bias else []))
    return st(z=pl.when(c("z").is_null()).then(s).otherwise(c("z")))


RK = ["lo", "mid", "hi"]
_rk = lambda i: pl.when(c("s").replace_strict(old=RK, new=[0, 1, 2], default=None, return_dtype=pl.Int32).is_null()).then(-1).otherwise((c("s").replace_strict(old=RK, new=[0, 1, 2], default=None, return_dtype=pl.Int32) >= i).cast(pl.Int8))
P2("rank hot", "rank_hot_encode", lambda F: TR.rank_hot_encode("s", RK), lambda: st(**{"s>=mid": _rk(1), "s>=hi": _rk(2)}),
   {"s": lambda r, n: [r.choice(RK + ["other"]) for _ in range(n)]})

SXY = {"s": lambda r, n: [r.choice("abcd") for _ in range(n)], "T_s": lambda r, n: [r.choice("abc") for _ in range(n)], "T_y": "bool01"}
for _d, _v in (("null", None), ("zero", 0.0), (0.25, 0.25), ("mean", "mean")):
    for _n, _fn, _mk, _to in (("target", "target_encode", lambda: NU.target_encode(c("s").cast(pl.String), "y", min_samples_leaf=20, smoothing=10.0), "to"),
                              ("woe", "woe_encode", lambda: NU.woe_discrete("s", "y"), "woe"), ("iv", "iv_encode", lambda: NU.info_value_discrete("s", "y", return_sum=False), "iv")):
        P2(f"{_n} encode default={_d}", _fn, lambda F, _fn=_fn, _d=_d: getattr(TR, _fn)(F, ["s"], target="y", default=_d),
           lambda _mk=_mk, _to=_to, _v=_v: st(s=_enc(train(_mk())[0], _to, tc("y").mean() if _v == "mean" else _v)), SXY)


def _enc(e, to, default):
    return c("s").replace_strict(old=e.struct.field("value"), new=e.struct.field(to), default=default)


# ------------------------------------------------------------------ P04
# The diagnosis methods run on a stand-in frame that answers every collected boolean (and every comparison of a
# collected number) by a fork: the method is run once per sequence of answers, and a result holds under the
# conjunction of the answers that lead to it.
PDF = pl.DataFrame


class Fork:
    stack, used = [], []

    @classmethod
    def ask(cls, e, options):
        """one of the options, the same for the same question on one path"""
        k = _json.dumps(exprvc.tree(e.meta.undo_aliases()), sort_keys=True)
        for q, o in cls.used:
            if q == k:
                return o
        i = len(cls.used)
        if i == len(cls.stack):
            cls.stack.append([0, len(options)])
        o = options[cls.stack[i][0]]
        cls.used.append((k, o))
        return o


def paths(fn, limit=700):
    """all results of fn with the answers that lead to them"""
    out, Fork.stack = [], []
    while True:
        Fork.used = []
        r = fn()
        out.append((r, list(Fork.used)))
        while Fork.stack and Fork.stack[-1][0] + 1 == Fork.stack[-1][1]:
            Fork.stack.pop()
        if not Fork.stack:
            return out
        Fork.stack[-1][0] += 1
        if len(out) > limit:
            raise exprvc.Unsupported("too many paths")


def member(ps, test):
    """the condition under which the result satisfies test, with the answers it does not depend on left out"""
    def expand(rs, i):
        if len({t for t, _ in rs}) == 1:
            return rs[0][0]
        q = rs[0][1][i][0]          # every path with the same answers so far asks the same next
        if any(u[i][0] != q for _, u in rs):
            raise exprvc.Unsupported("questions out of order")
        parts = [(o, expand([r for r in rs if r[1][i][1] is o], i + 1)) for o in (True, False, None) if any(r[1][i][1] is o for r in rs)]
        return parts[0][1] if len({str(p) for _, p in parts}) == 1 else (q, parts)

    def e(n):
        if n is True or n is False:
            return pl.lit(n)
        q, parts = n
        x = pl.Expr.deserialize(io.BytesIO(q.encode()), format="json")
        acc = None
        for o, p in parts:
            if p is False:
                continue
            k = x.is_null() if o is None else (x if o is True else ~x).fill_null(False)
            k = k if p is True else k & e(p)
            acc = k if acc is None else acc | k
        return acc
    return e(expand([(bool(test(r)), u) for r, u in ps], 0))


def subst(e, defs):
    """e with the columns read through their definitions"""
    j = exprvc.tree(e)
    d = {k: exprvc.tree(v.meta.undo_aliases()) for k, v in defs.items()}

    def go(j):
        if isinstance(j, dict):
            if set(j) == {"Column"} and j["Column"] in d:
                return d[j["Column"]]
            if "Selector" in j or "Columns" in j:
                raise exprvc.Unsupported("selection in a derived frame")
            return {k: go(v) for k, v in j.items()}
        return [go(v) for v in j] if isinstance(j, list) else j
    return pl.Expr.deserialize(io.BytesIO(_json.dumps(go(j)).encode()), format="json")


class Num:
    """a collected number: comparing it asks"""
    def __init__(self, e):
        self.e = e

    __hash__ = None

    def __bool__(self):
        raise exprvc.Unsupported("truth of a number")


def _cmp(op):
    return lambda self, o: Fork.ask(getattr(self.e, op)(o.e if isinstance(o, Num) else o), [True, False])


for _o in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(Num, _o, _cmp(_o))


class Rec:
    """a frame in one piece: {column: definition over the original columns}, and the rows kept"""
    def __init__(self, schema, defs=None, keep=None):
        self.schema, self.keep = schema, keep
        self.defs = defs if defs is not None else {n: pl.col(n) for n in schema}

    def __getattr__(self, n):
        raise exprvc.Unsupported("the frame is asked for " + n)

    def collect(self):
        return self

    lazy = collect

    @property
    def columns(self):
        return list(self.defs)

    def expand(self, es, kw):
        flat = []
        for e in list(es) + [v.alias(k) for k, v in kw.items()]:
            flat += [e] if isinstance(e, (str, pl.Expr)) else list(e)
        out = {}
        for e in flat:
            e = pl.col(e) if isinstance(e, str) else e
            if e.meta.is_column_selection():
                for n in PDF(schema={n: pl.Float64 for n in self.defs}).select(e).columns:
                    out[n] = self.defs[n]
            elif e.meta.has_multiple_outputs():
                j = exprvc.tree(e)
                names = list(self.defs) if j == exprvc.tree(pl.all()) else _names(j)
                for n in names:
                    out[n] = subst(_pick(j, n), self.defs)
            else:
                n = e.meta.output_name()
                if n in out:
                    raise ValueError("duplicate column")
                out[n] = subst(e.meta.undo_aliases(), self.defs)
        return out

    def select(self, *es, **kw):
        return Rec(self.schema, self.expand(es, kw), self.keep)

    def with_columns(self, *es, **kw):
        return Rec(self.schema, {**self.defs, **self.expand(es, kw)}, self.keep)

    def with_row_index(self, name="index", offset=0):
        if offset or self.keep is not None:
            raise exprvc.Unsupported("row index")
        return Rec(self.schema, {name: pl.col(name) if name == "__index__" else pl.int_range(0, pl.len()), **self.defs}, self.keep)

    def filter(self, *ps):
        p = self.expand([pl.all_horizontal(list(ps)) if len(ps) > 1 else ps[0]], {})
        k, = p.values()
        return Rec(self.schema, self.defs, k if self.keep is None else self.keep & k)

    def collect_schema(self):
        return pl.Schema({n: pl.Float64 for n in self.defs})

    def sum(self):
        return Rec(self.schema, {n: e.sum() for n, e in self.defs.items()}, self.keep)

    def rowvals(self):
        if self.keep is None:
            return list(self.defs.values())
        return [subst(e, {n: pl.col(n).filter(self.keep) for n in self.schema}) for e in self.defs.values()]

    def row(self, i):
        if i != 0:
            raise exprvc.Unsupported("row")
        return tuple(Fork.ask(e, [True, False, None]) if _isbool(e, self.schema) else Num(e) for e in self.rowvals())

    @property
    def shape(self):
        return (Num(pl.len() if self.keep is None else self.keep.filter(self.keep).len()), len(self.defs))

    def asstruct(self):
        s = pl.struct([e.alias(n) for n, e in self.defs.items()])
        return s if self.keep is None else s.filter(self.keep)


def _isbool(e, schema):
    def typed(j):           # a list.eval cannot be typed while it is captured: read as a list of booleans
        if isinstance(j, dict):
            if "FfiPlugin" in str(j.get("Function", {}).get("function", "") if isinstance(j.get("Function"), dict) else "") and "__vx_leval" in _json.dumps(j["Function"]["function"]):
                return exprvc.tree(pl.concat_list(pl.lit(True)))
            return {k: typed(v) for k, v in j.items()}
        return [typed(v) for v in j] if isinstance(j, list) else j
    e = pl.Expr.deserialize(io.BytesIO(_json.dumps(typed(exprvc.tree(e))).encode()), format="json")
    fr = PDF(schema=schema).with_columns(pl.lit(0).alias("__index__"))
    return fr.lazy().select(e.alias("v")).collect_schema()["v"] == pl.Boolean


def _names(j):
    if isinstance(j, dict):
        for k, v in j.items():
            if k == "Columns":
                return list(v)
            r = _names(v)
            if r:
                return r
    elif isinstance(j, list):
        for v in j:
            r = _names(v)
            if r:
                return r
    return []


_ALL = exprvc.tree(pl.all())


def _pick(j, n):
    def go(j):
        if isinstance(j, dict):
            return {"Column": n} if set(j) == {"Columns"} else {k: go(v) for k, v in j.items()}
        return [go(v) for v in j] if isinstance(j, list) else j
    return pl.Expr.deserialize(io.BytesIO(_json.dumps(go(j)).encode()), format="json")


try:
    from polars_ds.eda import diagnosis as DG
except Exception:
    DG = None
DSCH = {"x": pl.Float64, "y": pl.Float64, "s": pl.String}


@contextlib.contextmanager
def frames():
    """collect_all and concat keep the symbolic frames apart; a constructed table keeps its cells"""
    old = pl.collect_all, pl.concat, PDF

    class Table(dict):
        def __init__(self, data=None, schema=None):
            super().__init__(data or {})

        def sort(self, *a, **k):        # an order of the rows only
            return self
    pl.collect_all = lambda fs, **k: list(fs)
    pl.concat = lambda fs, **k: list(fs)
    pl.DataFrame = Table
    try:
        yield
    finally:
        pl.collect_all, pl.concat, pl.DataFrame = old


def diagnose(fn, schema):
    def call():
        d = DG.DIA(pl.DataFrame(schema=schema))
        d._frame = Rec(schema)
        with frames():
            return fn(d)
    return call


def guard(f):
    def g():
        try:
            return f()
        except (exprvc.Unsupported, ValueError):
            raise
        except Exception as e:
            raise exprvc.Unsupported(f"{type(e).__name__}: {e}"[:200])
    return g


def listed(fn, cols, schema=DSCH):
    """which of the columns the method lists"""
    def call():
        ps = paths(diagnose(fn, schema))
        for r, _ in ps:
            if not isinstance(r, list) or set(r) - set(cols) or len(set(r)) != len(r):
                raise exprvc.Unsupported("not a list of columns")
        return st(**{n: member(ps, lambda r, n=n: n in r) for n in cols})
    return guard(call)


def really_listed(fn, cols):
    def run(df):
        got = fn(DG.DIA(df))
        return [{n: n in got for n in cols}]
    return run


f = "eda.diagnosis.DIA."


def _probs(r, n):
    k = r.choice([0, .2, 1])
    return [[.5, .5] if r.random() >= k else r.choice([[.25, .75], [.5, .6], [-.5, 1.5], [.2, .3, .5], [0.0, 1.0]]) for _ in range(n)]


def _few(vals):
    return lambda r, n: [float(r.choice(vals[:r.randint(1, len(vals))])) for _ in range(n)]


DT = {"x": _few([1, 2, 3]), "y": _few([0, 5, 7, 9]), "s": lambda r, n: [r.choice("abc"[:r.randint(1, 3)]) for _ in range(n)]}
XYS = ["x", "y", "s"]
P4 = lambda name, fn, call, spec, cols=XYS, types=DT, schema=DSCH, nullable=("x", "y", "s"), **k: ob(
    "P04", name, f + fn, listed(call, cols, schema), lambda: st(**{n: spec(n) for n in cols}), types, real=really_listed(call, cols), nullable=[n for n in nullable if n in types],
    says="lists exactly the columns with the property", **k)
nv = lambda n: c(n).drop_nulls().n_unique()
nul = lambda n: c(n).null_count()
has = lambda n, k: (c(n).n_unique() == k) | ((nul(n) > 0) & (c(n).n_unique() == k + 1))
if DG is not None:
    P4("constant", "infer_const", lambda d: d.infer_const(), lambda n: c(n).n_unique() == 1)
    P4("constant with nulls", "infer_const", lambda d: d.infer_const(include_null=True), lambda n: has(n, 1))
    P4("binary", "infer_binary", lambda d: d.infer_binary(), lambda n: c(n).n_unique() == 2)
    P4("binary with nulls", "infer_binary", lambda d: d.infer_binary(include_null=True), lambda n: has(n, 2))
    for _k in (1, 3):
        P4(f"{_k} distinct", "infer_k_distinct", lambda d, _k=_k: d.infer_k_distinct(_k), lambda n, _k=_k: c(n).n_unique() == _k)
        P4(f"{_k} distinct with nulls", "infer_k_distinct", lambda d, _k=_k: d.infer_k_distinct(_k, include_null=True), lambda n, _k=_k: has(n, _k))
    P4("many nulls", "infer_high_null", lambda d: d.infer_high_null(0.25), lambda n: nul(n) >= pl.len() * 0.25)
    P4("many nulls, default", "infer_high_null", lambda d: d.infer_high_null(), lambda n: nul(n) >= pl.len() * 0.75, types={n: (lambda r, m: [None if r.random() < .75 else 1.0 for _ in range(m)]) for n in "xys"})
    P4("discrete", "infer_discrete", lambda d: d.infer_discrete(0.5, 3), lambda n: pl.lit(True) if n == "b" else (c(n).n_unique() < 3) | (c(n).n_unique() < pl.len() * 0.5),
       cols=["b", "x", "s"], types={"b": "bool", "x": DT["x"], "s": DT["s"]}, schema={"b": pl.Boolean, "x": pl.Float64, "s": pl.String})
    P4("probabilities", "infer_prob", lambda d: d.infer_prob(), lambda n: ((c(n) >= 0) & (c(n) <= 1)).all(), cols=["x", "y"], types={"x": _few([.5, 1.0, 0.0]), "y": _few([.5, 1.0, 0.0, 1.01, -.01])}, nullable=("x", "y"),
       schema={"x": pl.Float64, "y": pl.Float64})
    P4("class probabilities", "infer_prob", lambda d: d.infer_prob(), lambda n: (c(n).list.eval((pl.element() >= 0).all()).list.first() & ((c(n).list.sum() - 1).abs() < 1e-6) & (c(n).list.len().min() == c(n).list.len().max())).all(),
       cols=["l", "m"], types={"l": _probs, "m": _probs}, schema={"l": pl.List(pl.Float64), "m": pl.List(pl.Float64)}, nullable=())


def reported(fn, fields=None, schema=DSCH):
    """the rows of a report, one collected frame each"""
    def call():
        r = diagnose(fn, schema)()
        return st(**{f"r{i}": pl.struct([e.alias(n) for n, e in fr.defs.items() if fields is None or n in fields]) for i, fr in enumerate(r)})
    return guard(call)


def really(fn, fields=None):
    def run(df):
        r = fn(DG.DIA(df))
        r = r.select(n for n in r.columns if fields is None or n in fields)
        return [{f"r{i}": v for i, v in enumerate(r.to_dicts())}]
    return run


def _sv(n):
    a, b, d = c(n).is_null().sum(), c(n).is_nan().sum(), c(n).is_infinite().sum()
    return st(column=L(n), null_count=a, **{"null%": a / pl.len(), "NaN_count": b, "NaN%": b / pl.len(), "inf_count": d, "Inf%": d / pl.len()})


def _spec(vals):
    return lambda r, n: [r.choice([float("nan"), float("inf"), -float("inf"), 1.0, 2.0]) for _ in range(n)]


def _strs(n, most):
    by, ch = c(n).str.len_bytes(), c(n).str.len_chars()
    return st(column=L(n), null_count=c(n).is_null().sum(), n_unique=c(n).n_unique(),
              **({"most_freq": c(n).value_counts(sort=True).first().struct.field(n), "most_freq_cnt": c(n).value_counts(sort=True).first().struct.field("count")} if most else {}),
              min_byte_len=by.min(), min_char_len=ch.min(), avg_byte_len=by.mean(), avg_char_len=ch.mean(), max_byte_len=by.max(), max_char_len=ch.max(),
              **{"5p_byte_len": by.quantile(0.05), "95p_byte_len": by.quantile(0.95)})


R1, R2 = lambda: (c("x") > 0, "pos"), lambda: (c("y") < c("x"), "lt")


def validated(fn):
    def call():
        return diagnose(fn, DSCH)().asstruct()
    return guard(call)


def really_validated(fn):
    return lambda df: fn(DG.DIA(df.drop("__index__"))).to_dicts()


RT = {"__index__": "idx", "x": "real", "y": "real", "s": "str"}
rule1, rule2 = (lambda: c("x") > 0), (lambda: c("y") < c("x"))
viol = lambda: pl.any_horizontal(~rule1(), ~rule2())
allr = lambda: pl.concat_list([pl.when(rule1()).then(None).otherwise(L("pos")), pl.when(rule2()).then(None).otherwise(L("lt"))]).list.drop_nulls().list.sort()
oner = lambda: pl.concat_list([rule1(), rule2()]).list.arg_min().replace_strict(old=[0, 1], new=["pos", "lt"])
if DG is not None:
    ob("P04", "special values", f + "special_values_report", reported(lambda d: d.special_values_report()), lambda: st(r0=_sv("x"), r1=_sv("y")), {"x": _spec(0), "y": _spec(0), "s": "str"},
       real=really(lambda d: d.special_values_report()), nullable=["x", "y"], says="the counts of missing, NaN and infinite values per numeric column")
    SS = {"s": pl.String, "x": pl.Float64, "t": pl.String}
    LEN = ("column", "null_count", "n_unique", "min_byte_len", "min_char_len", "avg_byte_len", "avg_char_len", "max_byte_len", "max_char_len", "5p_byte_len", "95p_byte_len")
    ob("P04", "string lengths", f + "str_stats", reported(lambda d: d.str_stats(), LEN, SS), lambda: st(r0=_strs("s", False), r1=_strs("t", False)), {"s": "str", "x": "real", "t": "str"},
       real=really(lambda d: d.str_stats(), LEN), nullable=["s", "t"], says="the statistics of each string column")
    ob("P04", "most frequent string", f + "str_stats", reported(lambda d: d.str_stats(), None, SS), lambda: st(r0=_strs("s", True), r1=_strs("t", True)), {"s": "str", "x": "real", "t": "str"},
       no_eval=True, nullable=["s", "t"], says="the statistics of each string column")
    _va = lambda d: d.row_validation(R1(), R2(), columns_to_keep=["s"], all_reasons=True)
    _vo = lambda d: d.row_validation(R1(), R2())
    _vi = lambda d: d.row_validation(R1(), R2(), id_col="s")
    ob("P04", "rows, all reasons", f + "row_validation", validated(_va), lambda: st(__index__=c("__index__"), s=c("s"), __reason__=allr()).filter(viol()), RT, real=really_validated(_va), nullable=["s"],
       says="exactly the rows that break a rule, with the rules broken")
    ob("P04", "rows, one reason", f + "row_validation", validated(_vo), lambda: st(__index__=c("__index__"), __reason__=oner()).filter(viol()), RT, real=really_validated(_vo), nullable=["s"],
       says="exactly the rows that break a rule, with a rule broken")
    ob("P04", "rows by id", f + "row_validation", validated(_vi), lambda: st(s=c("s"), __reason__=oner()).filter(viol()), RT, real=really_validated(_vi), nullable=["s"],
       says="exactly the rows that break a rule, by their id")


def nullcorr(fn):
    """per pair of columns: whether it is listed, and its value where it is"""
    def call():
        ps = paths(lambda: {(x, y): v for x, y, v in zip(*(diagnose(fn, DSCH)()[k] for k in ("column_1", "column_2", "null_corr")))})
        keys = [("x", "y"), ("x", "s"), ("y", "s")]
        out = {}
        for k in keys:
            vals = {_json.dumps(exprvc.tree(r[k].e), sort_keys=True): r[k].e for r, _ in ps if k in r}
            if len(vals) != 1 or any(set(r) - set(keys) for r, _ in ps):
                raise exprvc.Unsupported("pairs")
            v, = vals.values()
            m = member(ps, lambda r, k=k: k in r)
            out["".join(k)] = m
            out["v_" + "".join(k)] = pl.when(m).then(v)
        return st(**out)
    return guard(call)


def _holes(r, n):
    k = r.choice([0, .3, .6, 1])
    return [None if r.random() < k else 1.0 for _ in range(n)]


NT = {"x": _holes, "y": _holes, "s": _holes}


def _nc(w):
    def spec():
        out = {}
        on = (lambda e: e.filter(w())) if w else (lambda e: e)
        n = w().filter(w()).len() if w else pl.len()
        for x, y in (("x", "y"), ("x", "s"), ("y", "s")):
            a, b = on(c(x).is_null()), on(c(y).is_null())
            m = (a.sum() != 0) & (a.sum() != n) & (b.sum() != 0) & (b.sum() != n)
            out[x + y] = m
            out["v_" + x + y] = pl.when(m).then(pl.corr(a, b))
        return st(**out)
    return spec


if DG is not None:
    def really_nc(fn):
        def run(df):
            r = {x + y: v for x, y, v in fn(DG.DIA(df)).rows()}
            return [dict(q for k in ("xy", "xs", "ys") for q in ((k, k in r), ("v_" + k, r.get(k))))]
        return run
    ob("P04", "null correlation", f + "null_corr", nullcorr(lambda d: d.null_corr()), _nc(None), NT, real=really_nc(lambda d: d.null_corr()), nullable=["x", "y", "s"],
       says="the correlation of the null indicators, for the pairs where it is defined")
    ob("P04", "null correlation of some rows", f + "null_corr", nullcorr(lambda d: d.null_corr(filter_by=c("s").is_not_null())), _nc(lambda: c("s").is_not_null()), NT,
       real=really_nc(lambda d: d.null_corr(filter_by=c("s").is_not_null())), nullable=["x", "y", "s"], says="the correlation of the null indicators, for the pairs where it is defined")


# ------------------------------------------------------------------ P03
from polars_ds.sample_and_split import sample_and_split as SM

f = "sample_and_split.sample_and_split."
ST3 = {"x": "real", "y": "real", "s": "str"}
SSCH = {"x": pl.Float64, "y": pl.Float64, "s": pl.String}


def sampled(fn, clauses):
    """clauses of the frames that fn makes of a frame, each given by the mask of the rows it keeps"""
    def call():
        r = fn(Rec(SSCH))
        r = r if isinstance(r, list) else [r]
        for q in r:
            if list(q.defs) != list(SSCH) or any(exprvc.tree(e) != exprvc.tree(pl.col(n)) for n, e in q.defs.items()):
                raise exprvc.Unsupported("not the columns of the frame")
        return st(**clauses(*[q.keep for q in r]))
    return guard(call)


def really_sampled(fn, clauses):
    def run(df):
        r = fn(df.with_row_index("__i"))
        r = r if isinstance(r, list) else [r]
        ms = [pl.Series(f"m{i}", [k in set(q["__i"].to_list()) for k in range(len(df))]) for i, q in enumerate(r)]
        return df.with_columns(ms).select(st(**clauses(*[c(m.name) for m in ms])).alias("v"))["v"].to_list()
    return run


def P3(name, fn, call, clauses, spec, says, nullable=()):
    ob("P03", name, f + fn, sampled(call, clauses), spec, ST3, real=really_sampled(call, clauses), nullable=nullable, says=says)


rows = lambda k: k.filter(k).len()
near = lambda k, v: (rows(k).cast(pl.Float64) - pl.len().cast(pl.Float64) * v).abs() < 1
for _v in (0.25, 0.7):
    P3(f"sample rate {_v}", "sample", lambda F, _v=_v: SM.sample(F, _v, seed=3), lambda k, _v=_v: {"near": near(k, _v)}, lambda: st(near=L(True)), "whole rows, the rate of them within one")
    P3(f"split ratio {_v}", "split_by_ratio", lambda F, _v=_v: SM.split_by_ratio(F, _v, seed=3),
       lambda a, b, _v=_v: {"near": near(a, _v), "total": rows(a) + rows(b), "disjoint": a.fill_null(False).xor(b.fill_null(False)).all()},
       lambda: st(near=L(True), total=pl.len(), disjoint=L(True)), "two parts of the rows, none lost or repeated, by the ratio within one")
for _v in (1, 5):
    P3(f"sample count {_v}", "sample", lambda F, _v=_v: SM.sample(F, _v, seed=3), lambda k: {"rows": rows(k)}, lambda _v=_v: st(rows=pl.min_horizontal(L(float(_v)), pl.len().cast(pl.Float64))),
       "whole rows, as many as asked for")
P3("downsample outside", "downsample", lambda F: SM.downsample(F, (c("x") > 0, 0.25), seed=3), lambda k: {"kept": (k.fill_null(False) | (c("x") > 0).fill_null(False)).all()}, lambda: st(kept=L(True)),
   "every row outside the condition is kept", ["x"])
P3("downsample outside two", "downsample", lambda F: SM.downsample(F, (c("x") > 0, 3), (c("y") < 1, 0.5), seed=3),
   lambda k: {"kept": (k.fill_null(False) | (c("x") > 0).fill_null(False) | (c("y") < 1).fill_null(False)).all()}, lambda: st(kept=L(True)), "every row outside the conditions is kept", ["x", "y"])


# ------------------------------------------------------------------ P01
# Blueprint.materialize runs on a training frame whose columns are T_x; Pipeline.transform runs on a frame of columns x.
MULTI = ("Columns", "Exclude", "DtypeColumn")


def _multi(j):
    """the node of a tree that stands for several columns"""
    if j == "Wildcard":
        return j
    if isinstance(j, dict):
        if len(j) == 1 and set(j) & set(MULTI):
            return j
        if "Selector" in j:
            raise exprvc.Unsupported("selector")
    for v in (j.values() if isinstance(j, dict) else j if isinstance(j, list) else []):
        r = _multi(v)
        if r is not None:
            return r


def _back(j):
    return pl.Expr.deserialize(io.BytesIO(_json.dumps(j).encode()), format="json")


class Step:
    """a frame as {column: definition over the columns it started from}; filtered definitions carry the filter"""
    def __init__(self, schema, defs, filtered=False, train=False):
        self.schema, self.defs, self.filtered, self.train = schema, defs, filtered, train

    def __getattr__(self, n):
        raise exprvc.Unsupported("the frame is asked for " + n)

    def lazy(self):
        return self

    def collect(self):
        return self

    def collect_schema(self):
        fr = PDF(schema={**self.schema, **{"T_" + n: t for n, t in self.schema.items()}}).lazy()
        return fr.select([e.alias(n) for n, e in self.defs.items()]).collect_schema()

    @property
    def columns(self):
        return list(self.defs)

    def expand(self, es, kw):
        flat = []
        for e in list(es) + [v.alias(k) for k, v in kw.items()]:
            flat += [e] if isinstance(e, (str, pl.Expr)) else list(e)
        out = {}
        for e in flat:
            e = pl.col(e) if isinstance(e, str) else e
            bare = e.meta.undo_aliases()
            j = exprvc.tree(bare)
            m = _multi(j)
            if m is not None:
                called = PDF(schema=self.collect_schema()).lazy().select(e).collect_schema().names()
                names = PDF(schema=self.collect_schema()).select(_back(m)).columns
                key = _json.dumps(m, sort_keys=True)

                def put(j, n):
                    if _json.dumps(j, sort_keys=True) == key:
                        return {"Column": n}
                    return {k: put(v, n) for k, v in j.items()} if isinstance(j, dict) else [put(v, n) for v in j] if isinstance(j, list) else j
                one = list(zip(called, [_back(put(j, n)) for n in names]))
                if len(called) != len(names):
                    raise exprvc.Unsupported("names of several columns")
            else:
                one = [(e.meta.output_name(), bare)]
            for n, e in one:
                if self.filtered and '"Len"' in _json.dumps(exprvc.tree(e)):
                    raise exprvc.Unsupported("length of a filtered frame")
                if n in out:
                    raise ValueError("duplicate column")
                out[n] = subst(e, self.defs)
        return out

    def select(self, *es, **kw):
        return Step(self.schema, self.expand(es, kw), self.filtered, self.train)

    def with_columns(self, *es, **kw):
        return Step(self.schema, {**self.defs, **self.expand(es, kw)}, self.filtered, self.train)

    def filter(self, *ps):
        k, = self.expand([pl.all_horizontal(list(ps)) if len(ps) > 1 else ps[0]], {}).values()
        return Step(self.schema, {n: e.filter(k) for n, e in self.defs.items()}, True, self.train)

    def row(self, i):
        if not self.train:
            raise exprvc.Unsupported("a value of the frame to transform")
        return tuple(self.defs.values())

    def item(self, *ij):
        e, = self.defs.values()
        return Learned(e) if "FfiPlugin" in str(exprvc.tree(e)) else e

    def get_columns(self):
        return [Learned(e, n) for n, e in self.defs.items()]


PSCH = {"x": pl.Float64, "y": pl.Float64, "z": pl.Float64, "b": pl.Boolean}
from polars_ds.modeling.pipeline import Blueprint, Pipeline


def piped(make, mode="same"):
    """what the fitted pipeline does to a frame: same process, or written as a dictionary of text and read back"""
    def call():
        bp = Blueprint(Step(PSCH, {n: pl.col("T_" + n) for n in PSCH}, train=True), target="z")
        with lit_through():
            p = make(bp).materialize()
            if mode == "json":
                p = Pipeline.from_json_str(p.to_json())
            r = p.transform(Step(PSCH, {n: pl.col(n) for n in PSCH}))
        if p.feature_names_in_ != list(PSCH) or p.feature_names_out_ != list(r.defs):
            return st(**{"features": L("do not match")})
        return pl.struct([e.alias(n) for n, e in r.defs.items()])
    return guard(call)


def really_piped(make, mode):
    def run(df):
        tr = df.select(pl.col("T_" + n).alias(n) for n in PSCH)
        p = make(Blueprint(tr, target="z")).materialize()
        if mode == "json":
            p = Pipeline.from_json_str(p.to_json())
        return [r for r in p.transform(df.select(list(PSCH))).to_dicts()]
    return run


f = "modeling.pipeline."
PT = {"x": "real", "y": "real", "z": "real", "b": "bool", "T_x": "real", "T_y": "real", "T_z": "real", "T_b": "bool"}
zs = lambda e, t: (e - t.mean()) / t.std(ddof=0)
ix, tix = (lambda: imp("x", mean_(tc("x")))), (lambda: pl.when(tc("x").is_not_null()).then(tc("x")).otherwise(mean_(tc("x"))))


def cimp2(n, cond, m):
    return pl.when(cond).then(m).otherwise(tc(n))


def _own(df, cols, shift):
    m = df.select(pl.col(cols).max()).row(0)
    return [pl.col(n) - (pl.lit(v) if not isinstance(v, pl.Expr) else v) + shift for n, v in zip(cols, m)]


PIPES = {
    "impute then scale": (lambda bp: bp.impute("x").scale(["x", "y"]), lambda: dict(x=zs(ix(), tix()), y=zs(c("y"), tc("y")), z=c("z"), b=c("b"))),
    "scale then impute": (lambda bp: bp.scale(["x", "y"]).impute(["x"]), lambda: dict(x=pl.when(zs(c("x"), tc("x")).is_not_null()).then(zs(c("x"), tc("x"))).otherwise(zs(tc("x"), tc("x")).mean()), y=zs(c("y"), tc("y")), z=c("z"), b=c("b"))),
    "target left alone": (lambda bp: bp.center(pl.col(pl.Float64)), lambda: dict(x=c("x") - mean_(tc("x")), y=c("y") - mean_(tc("y")), z=c("z"), b=c("b"))),
    "rename then center": (lambda bp: bp.rename({"x": "w", "y": "x"}).center(["x"]), lambda: dict(z=c("z"), b=c("b"), w=c("x"), x=c("y") - mean_(tc("y")))),
    "rename over": (lambda bp: bp.rename({"x": "b"}), lambda: dict(y=c("y"), z=c("z"), b=c("x"))),
    "rename swapped": (lambda bp: bp.rename({"x": "y", "y": "x"}).center(["y"]), lambda: dict(z=c("z"), b=c("b"), y=c("x") - mean_(tc("x")), x=c("y"))),
    "appended then center": (lambda bp: bp.append_expr((pl.col("x") * 2).alias("u"), (pl.col("x") + pl.col("y")).alias("x")).center(["x", "u"]),
                             lambda: dict(x=c("x") + c("y") - mean_(tc("x") + tc("y")), y=c("y"), z=c("z"), b=c("b"), u=c("x") * 2 - mean_(tc("x") * 2))),
    "drop, select, cast": (lambda bp: bp.cast_bools(pl.Float64).drop(["y"]).select(pl.col("b", "x", "z")), lambda: dict(b=c("b").cast(pl.Float64), x=c("x"), z=c("z"))),
    "winsorize then polynomial": (lambda bp: bp.winsorize(["x"], 0.125, 0.75, "lower").polynomial_features(["x", "y"], 2, interaction_only=False),
                                  lambda: (lambda w: dict(x=w, y=c("y"), z=c("z"), b=c("b"), **{"x*x": w ** 2, "x*y": w * c("y"), "y*y": c("y") ** 2}))(
                                      pl.when(c("x") > _q("x", .75, "lower")).then(_q("x", .75, "lower")).when(c("x") < _q("x", .125, "lower")).then(_q("x", .125, "lower")).otherwise(c("x")))),
    "filter then center": (lambda bp: bp.filter(pl.col("y") > 0).center(["x"]), lambda: dict(x=c("x").filter(c("y") > 0) - mean_(tc("x").filter(tc("y") > 0)), y=c("y").filter(c("y") > 0), z=c("z").filter(c("y") > 0), b=c("b").filter(c("y") > 0))),
    "center then filter then center": (lambda bp: bp.center(["y"]).filter(pl.col("y") > 0).center(["x"]),
                                       lambda: (lambda k, t: dict(x=c("x").filter(k) - mean_(tc("x").filter(t)), y=(c("y") - mean_(tc("y"))).filter(k), z=c("z").filter(k), b=c("b").filter(k)))(c("y") - mean_(tc("y")) > 0, tc("y") - mean_(tc("y")) > 0)),
    "conditional impute then robust scale": (lambda bp: bp.conditional_impute({"x": pl.col("y") > 0}).robust_scale(["x", "y"], 0.25, 0.75),
        lambda: (lambda v, t: dict(x=(v - t.quantile(.25, 'midpoint')) / (t.quantile(.75, 'midpoint') - t.quantile(.25, 'midpoint')), y=(c("y") - _q("y", .25, "midpoint")) / (_q("y", .75, "midpoint") - _q("y", .25, "midpoint")), z=c("z"), b=c("b")))(
            cimp("x", c("y") > 0, tc("x").filter(~(tc("y") > 0)).mean()), cimp2("x", tc("y") > 0, tc("x").filter(~(tc("y") > 0)).mean()))),
    "steps from dictionaries": (lambda bp: bp.append_step_from_dict({"name": "center", "args": [["y"]]}).append_step_from_dict({"name": "impute", "args": [["x"]], "kwargs": {"method": "median"}}),
                                lambda: dict(x=imp("x", tc("x").median()), y=c("y") - mean_(tc("y")), z=c("z"), b=c("b"))),
    "own fit function": (lambda bp: bp.center(["x"]).append_fit_func(_own, ["x", "y"], shift=2.0), lambda: (lambda v, t: dict(x=v - t.max() + 2, y=c("y") - tc("y").max() + 2, z=c("z"), b=c("b")))(c("x") - mean_(tc("x")), tc("x") - mean_(tc("x")))),
    "excluded column": (lambda bp: (bp.exclude.append("y"), bp)[1].scale(pl.col(pl.Float64), "min_max"), lambda: dict(x=(c("x") - tc("x").min()) / (tc("x").max() - tc("x").min()), y=c("y"), z=c("z"), b=c("b"))),
}
for _m in ("same", "json"):
    for _n, (_mk, _sp) in PIPES.items():
        ob("P01", _n + (" from json" if _m == "json" else ""), f + ("Pipeline.from_dict" if _m == "json" else "Blueprint.materialize"), piped(_mk, _m), lambda _sp=_sp: st(**_sp()), PT, real=really_piped(_mk, _m),
           nullable=["x", "y", "T_x", "T_y"] if "filter" not in _n else ["x", "T_x"], says="its steps in order, with the values learned from the training frame at each step")
