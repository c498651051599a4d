"""Run-time contract harness: evaluates the property's postconditions on the real built extension with independent oracles."""
import json, math, os, sys, time, traceback, importlib, warnings
import numpy as np
warnings.filterwarnings("ignore")


def js(x, depth=0):
    """JSON-able rendering of an input (exact for the small inputs used here)"""
    import polars as pl
    if isinstance(x, pl.Series):
        return {"series": x.name, "dtype": str(x.dtype), "values": js(x.to_list(), depth + 1)}
    if isinstance(x, (pl.DataFrame, pl.LazyFrame)):
        if isinstance(x, pl.LazyFrame):
            x = x.collect()
        return {"frame": {c: js(x[c].to_list()) for c in x.columns}, "schema": {c: str(t) for c, t in x.schema.items()}}
    if isinstance(x, np.ndarray):
        return js(x.tolist(), depth + 1)
    if isinstance(x, (list, tuple)):
        r = [js(v, depth + 1) for v in x[:400]]
        if len(x) > 400:
            r.append(f"... ({len(x)} values)")
        return r
    if isinstance(x, dict):
        return {str(k): js(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if x is None or isinstance(x, (int, str)):
        return x
    return repr(x)[:400]


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, seed, tier, budget, journal):
        self.prop, self.seed, self.tier, self.budget = prop, seed, tier, budget
        self.thorough = tier == "thorough"
        self.rng = np.random.default_rng([seed, sum(map(ord, prop))])
        self.t0 = time.time()
        self.n = 0
        self.clauses = {}
        self.samples = []
        self.failures = []
        self.fail_keys = set()
        self.distinct = set()
        self.journal = open(journal, "w") if journal else None
        self.case_input = None
        self._hkey = self._h = None
        self.case_clause = ''

    def time_ok(self, frac=1.0):
        return time.time() - self.t0 < self.budget * frac

    def begin(self, clause, **inputs):
        """start of a case: recorded so that a crash of the process is attributed"""
        self.case_clause, self.case_input = clause, inputs
        self._hkey = None
        if self.journal:
            try:
                j = json.dumps(js(inputs), default=str)
                self._hkey, self._h = (id(inputs), len(inputs)), hash((clause, j))
                t = '{"clause": %s, "input": %s, "t": %r}' % (json.dumps(clause), j, time.time())
                self.journal.seek(0)
                self.journal.truncate()
                self.journal.write(t)
                self.journal.flush()
            except Exception:
                pass

    def fail(self, key, got, want, why=""):
        if key in self.fail_keys:
            return
        self.fail_keys.add(key)
        self.failures.append({"key": key, "clause": self.case_clause, "input": js(self.case_input), "got": js(got), "want": js(want), "why": why})

    def ok(self, cond, key, got=None, want=None, why=""):
        self.n += 1
        c = self.case_clause
        self.clauses[c] = self.clauses.get(c, 0) + 1
        try:
            k = (id(self.case_input), len(self.case_input))
            if self._hkey != k:
                self._hkey, self._h = k, hash((c, json.dumps(js(self.case_input), default=str)))
            h = self._h
        except Exception:
            h = self.n
        if h not in self.distinct:
            self.distinct.add(h)
            if self.clauses[c] == 2 and len(self.samples) < 12:
                self.samples.append({"clause": c, "input": js(self.case_input)})
        if not bool(cond):
            self.fail(key, got, want, why)
            return False
        return True

    def close(self, got, want, key, rtol=1e-7, atol=1e-9, why=""):
        return self.ok(allclose(got, want, rtol, atol), key, got, want, why)

    def call(self, key, f, *a, **k):
        """call that must not raise"""
        try:
            return f(*a, **k)
        except Stop:
            raise
        except BaseException as e:  # PanicException is a BaseException
            if isinstance(e, KeyboardInterrupt):
                raise
            self.n += 1
            self.fail(key, f"{type(e).__name__}: {str(e)[:300]}", "a result", "the call must not fail on a valid input")
            return None

    def raises(self, key, f, *a, **k):
        try:
            r = f(*a, **k)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            self.ok(type(e).__name__ != "PanicException" or True, key)
            return True
        self.ok(False, key, r, "an error")
        return False

    def outcome(self, f, *a, **k):
        try:
            return ("ok", f(*a, **k))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            return ("err", f"{type(e).__name__}: {str(e)[:200]}")


def hide(df):
    """the same frame whose missing entries have ordinary values in the buffers under the validity mask"""
    import polars as pl
    out = []
    for c in df.columns:
        s = df[c]
        if not s.null_count() or s.null_count() == len(s) or not (s.dtype.is_numeric() or s.dtype in (pl.String, pl.Boolean)):
            out.append(pl.col(c))
            continue
        out.append(pl.when(pl.Series("m", s.is_not_null())).then(pl.col(c).fill_null(strategy="forward").fill_null(strategy="backward")).alias(c))
    return df.select(out)


def allclose(a, b, rtol=1e-7, atol=1e-9):
    """structural comparison; None == None, NaN == NaN"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bool, np.bool_)) or isinstance(b, (str, bool, np.bool_)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(allclose(a[k], b[k], rtol, atol) for k in a)
    if hasattr(a, "to_list"):
        a = a.to_list()
    if hasattr(b, "to_list"):
        b = b.to_list()
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all(allclose(x, y, rtol, atol) for x, y in zip(a, b))
    try:
        x, y = float(a), float(b)
    except Exception:
        return a == b
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def main():
    prop, seed, tier, budget, out, journal = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5], sys.argv[6]
    os.environ.setdefault("RUST_BACKTRACE", "0")
    mod = importlib.import_module(prop)
    C = Ctx(prop, seed, tier, budget, journal)
    err = None
    try:
        if len(sys.argv) > 7:  # replay of one recorded failure
            C.replay_only = json.load(open(sys.argv[7]))
        import contexts
        contexts.check(C)
        mod.run(C)
    except Stop:
        pass
    except BaseException as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if C.case_input is not None and not isinstance(e, (np.linalg.LinAlgError, MemoryError, KeyboardInterrupt)):  # the result cannot even be compared: the contract is not met on this input
            C.fail("eval:" + C.case_clause, tb, "a result the contract can be evaluated on", "evaluating the postcondition failed")
        else:
            err = tb
    json.dump({"evaluations": C.n, "distinct": len(C.distinct), "clauses": C.clauses, "samples": C.samples, "failures": C.failures,
               "error": err, "rule": getattr(mod, "RULE", ""), "wall_s": time.time() - C.t0,
               "version_file": C.__dict__.get("so", "")}, open(out, "w"))


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import common
    common.main()
