"""Deductive obligations for the Python layer.

A function of polars_ds that returns a Polars expression is called for real (on every run, on the current tree);
the expression tree it returns is the code that later runs, node for node, in the Polars engine.  Its contract
(lib/exprspec.py) gives the value that tree must denote, as a textbook formula.  This module translates both trees
into terms over real numbers -- one symbolic row for elementwise parts, symbolic sums for aggregates, uninterpreted
functions for operators without an axiom -- and asks z3 to prove value, validity (null-ness) and length equal for
all column contents of every length.  An obligation z3 cannot prove is not a violation by itself: both trees are
then evaluated on concrete frames, and only a frame on which they differ is reported.

usage: exprvc.py <property> <tier> <out.json>
"""
import json, sys, os, time, pickle, random, math, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from fractions import Fraction
import z3
import polars as pl

z3.set_param("smt.random_seed", 1)
Rl, Bo = z3.RealSort(), z3.BoolSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


class Den:
    """denotation: value / validity / membership of the generic row (or of the single value when scalar)"""
    __slots__ = ("val", "ok", "dom", "row", "ty", "frame", "fields", "lit")

    def __init__(self, val, ok=T, dom=T, row=False, ty="real", frame=None, fields=None, lit=None):
        self.val, self.ok, self.dom, self.row, self.ty, self.frame, self.fields, self.lit = val, ok, dom, row, ty, frame, fields, lit


def b2r(t):
    return z3.If(t, z3.RealVal(1), z3.RealVal(0)) if z3.is_bool(t) else t


def AND(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return F
    return T if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return T
    return F if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def NOT(x):
    return F if z3.is_true(x) else T if z3.is_false(x) else z3.Not(x)


def ITE(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.is_bool(a) and not z3.is_bool(b):
        a = b2r(a)
    if z3.is_bool(b) and not z3.is_bool(a):
        b = b2r(b)
    return a if a.eq(b) else z3.If(c, a, b)


def consts(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        stack.extend(x.children())
    return acc


def has_row(t):
    return any(n.startswith("r!") for n in consts(t))


def subterms(ts):
    seen, out = set(), []
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        stack.extend(x.children())
    return out


class TooBig(Exception):
    pass


def padd(p, q, s):
    out = dict(p)
    for m, v in q.items():
        w = out.get(m, 0) + s * v
        if w:
            out[m] = w
        else:
            out.pop(m, None)
    return out


class Engine:
    def __init__(self, types, nullable, pre=None, timeout=4000):
        self.types, self.nullable = types, nullable
        self.moments = []     # (ctx, frame, term, const)
        self.counts, self.perms = [], []      # facts about, and (bound, constant) of, counts of rows of a permutation
        self.opaques = []     # (ctx, key, args, Den)
        self.ufs = {}
        self.ctx = ()
        self.N = {}
        self.n_ob = 0
        self.timeout = timeout
        self.solver_ms = 0
        self.lits = {}
        self.cache = {}
        self.pre = pre or []
        self.fresh_n = 0
        self.dens = None
        self.rid, self.rterm, self.reps, self.rmemo, self.keep = {}, {}, {}, {}, []
        self.ind, self.conds, self.cid = set(), [], {}

    # ---------- proving
    def facts(self, terms):
        fs = []
        cs = {}
        for t in terms:
            consts(t, cs)
        for n, c in cs.items():
            if n.startswith("n!"):
                fs.append(c >= 1)
            if n == "r!idx" or n.startswith("r!idx@"):
                pass
            base = n[2:].split("@")[0] if n.startswith(("r!", "s!")) else None
            ty = self.types.get(base)
            if ty in ("pos", "posint"):
                fs.append(c > 0)
            elif ty in ("nonneg",):
                fs.append(c >= 0)
            elif ty == "unit":
                fs += [c >= 0, c <= 1]
            elif ty == "bool01":
                fs.append(z3.Or(c == 0, c == 1))
            elif ty == "ge1":
                fs.append(c >= 1)
        subs = subterms(terms)
        sq = []
        for x in subs:
            if z3.is_app(x):
                k = x.decl().kind()
                if k == z3.Z3_OP_DIV and (self.dens is None or x.arg(1).get_id() in self.dens):
                    fs.append(x.arg(1) != 0)
                nm = x.decl().name()
                if nm == "SQRT":
                    a = x.arg(0)
                    fs += [z3.Implies(a >= 0, z3.And(x >= 0, x * x == a))]
                    sq.append(x)
                elif nm == "EXP":
                    fs.append(x > 0)
                elif nm == "COSH":
                    fs.append(x >= 1)
        for i, a in enumerate(sq):
            for b in sq[i:]:
                u, v = a.arg(0), b.arg(0)
                fs.append(z3.Implies(z3.And(u >= 0, v >= 0), self.uf("SQRT", u * v) == a * b))
        sc = {x.arg(0).get_id(): x for x in subs if z3.is_app(x) and x.decl().name() == "COSH"}
        sl = list(sc.values())
        for i, a in enumerate(sl):
            for b in sl[i + 1:]:
                fs.append(z3.Implies(a.arg(0) == -b.arg(0), a == b))
        for p in self.pre:
            fs += p(self, cs)
        extra = [g for n, g in self.counts if n in cs]
        for x in subterms(list(terms) + extra):
            if z3.is_app(x) and x.decl().name() == "CAST_INT":
                a = x.arg(0)        # towards zero
                fs.append(z3.Implies(a >= 0, z3.And(x >= 0, x <= a, a < x + 1)))
        fs += extra
        # quantiles of one column are monotone in the level
        qs = [(a, d) for ctx, k, a, d in self.opaques if k.startswith("agg:Quantile") and isinstance(a[1].lit, (int, float))]
        for i, (a, d) in enumerate(qs):
            for a2, d2 in qs[i + 1:]:
                if a[0] is a2[0]:
                    fs += [d.ok == d2.ok, d.val <= d2.val if a[1].lit <= a2[1].lit else d.val >= d2.val]
        # a sum of 0/1 terms is at least the term of any one row, and at most the number of rows
        for ctx, fr, t, c in self.moments:
            if c.decl().name() in cs and self.indicator(t):
                fs.append(c >= 0)
                if fr == "0" and not ctx:
                    fs += [c >= t, c <= self.len_of("0")]
        if "r!idx" in cs:
            n = self.len_of("0")
            fs += [cs["r!idx"] >= 0, cs["r!idx"] <= n - 1]
        return fs

    def defined(self, spec, code, given=()):
        """every division the code performs is by something nonzero whenever the contract's own divisions are"""
        roots = lambda ts: [x for x in subterms(ts) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV]
        sd = [x.arg(1) for x in roots(spec)]
        mom = [t for _, _, t, _ in self.moments]
        sd += [x.arg(1) for x in roots(mom[:self.n_spec_moments])]
        old, self.dens = self.dens, {x.get_id() for x in sd}
        try:
            seen = set()
            bad = []

            def walk(t, path):
                k = (t.get_id(), tuple(p.get_id() for p in path))
                if k in seen:
                    return
                seen.add(k)
                if not z3.is_app(t):
                    return
                if t.decl().kind() == z3.Z3_OP_ITE:
                    walk(t.arg(0), path)
                    walk(t.arg(1), path + [t.arg(0)])
                    walk(t.arg(2), path + [z3.Not(t.arg(0))])
                    return
                if t.decl().kind() == z3.Z3_OP_DIV:
                    d = t.arg(1)
                    if not self.nonzero(d, sd, path):
                        bad.append(str(z3.simplify(d))[:120])
                for c in t.children():
                    walk(c, path)
            for t in code:
                walk(t, list(given))
            return bad
        finally:
            self.dens = old

    def nonzero(self, d, sd, path):
        if z3.is_rational_value(d):
            return d.as_fraction() != 0
        if d.decl().kind() == z3.Z3_OP_MUL:
            return all(self.nonzero(c, sd, path) for c in d.children())
        if d.decl().kind() == z3.Z3_OP_DIV:
            return self.nonzero(d.arg(0), sd, path)
        sim = z3.simplify(d)
        for ctx, fr, t, c in self.moments:
            if c.eq(sim) and fr == "0" and not ctx and self.prove(t > 0):
                return True         # the frame is not empty
        for x in sd:
            if x.eq(d) or self.eq(x, d):
                return True
            try:        # a rational multiple of one of the contract's denominators
                for c in (-1, 2, Fraction(1, 2)):
                    if self.eq(d, z3.RealVal(str(c)) * x):
                        return True
                if d.decl().name() == "SQRT" and self.eq(d.arg(0), x) or x.decl().name() == "SQRT" and self.eq(x.arg(0), d):
                    return True
                if x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and self.nonzero(d, x.children(), path):
                    return True
            except z3.Z3Exception:
                pass
        return self.prove(z3.Implies(AND(*path, *[x != 0 for x in sd[:12]]), d != 0))

    @staticmethod
    def indicator(t):
        is01 = lambda x: z3.is_rational_value(x) and x.as_fraction() in (0, 1)
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and is01(t.arg(1)) and is01(t.arg(2))

    def prove(self, goal, extra=(), bounded_idx=True):
        g = z3.simplify(goal, som=True)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        key = goal.get_id()
        t0 = time.time()
        try:
            fs = self.facts([goal])
            if not bounded_idx:
                fs = [f for f in fs if "r!idx" not in consts(f)]
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(*fs, *extra)
            s.add(z3.Not(goal))
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            self.solver_ms += (time.time() - t0) * 1000

    def eq(self, a, b, **k):
        if a.eq(b):
            return True
        if z3.is_bool(a) != z3.is_bool(b):
            a, b = b2r(a), b2r(b)
        if z3.is_bool(a):
            return self.prove(a == b, **k)
        if self.refuted(a, b):
            return False
        # identity of rational functions by cross multiplication (square roots: sqrt(u)*sqrt(u) = u)
        try:
            n1, d1 = self.rat(a)
            n2, d2 = self.rat(b)
            if not padd(self.pmul(n1, d2), self.pmul(n2, d1), -1):
                return True
            if self.nonneg(a) and self.nonneg(b):
                (n1, d1), (n2, d2) = self.unroot((self.pmul(n1, n1), self.pmul(d1, d1))), self.unroot((self.pmul(n2, n2), self.pmul(d2, d2)))
                if not padd(self.pmul(n1, d2), self.pmul(n2, d1), -1):
                    return True
        except (TooBig, RecursionError):
            pass
        return self.prove(a == b, **k)

    def refuted(self, a, b):
        """cheap filter: evaluate both at pseudo-random points (uninterpreted functions hashed); differing = not equal"""
        rnd = random.Random(7)
        cs = consts(a)
        consts(b, cs)
        for _ in range(3):
            env = {}
            for n in sorted(cs):
                base = n[2:].split("@")[0] if n.startswith(("r!", "s!")) else None
                ty = self.types.get(base)
                if z3.is_bool(cs[n]):
                    env[n] = True if rnd.random() < 0.7 else False
                elif ty == "bool01":
                    env[n] = float(rnd.random() < 0.5)
                elif n == "r!idx":
                    env[n] = 5.0
                elif n.startswith("n!"):
                    env[n] = 40.0
                else:
                    env[n] = rnd.uniform(0.3, 3.0)
            try:
                x, y = self.ev(a, env, {}), self.ev(b, env, {})
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if isinstance(x, bool) or isinstance(y, bool):
                if x != y:
                    return True
            elif abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                return True
        return False

    def ev(self, t, env, memo):
        i = t.get_id()
        if i in memo:
            return memo[i]
        k = t.decl().kind()
        ch = [self.ev(c, env, memo) for c in t.children()] if k != z3.Z3_OP_ITE else None
        if z3.is_rational_value(t):
            r = float(t.numerator_as_long()) / float(t.denominator_as_long())
        elif z3.is_true(t):
            r = True
        elif z3.is_false(t):
            r = False
        elif k == z3.Z3_OP_UNINTERPRETED and not ch:
            r = env[t.decl().name()]
        elif k == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if nm == "SQRT":
                r = math.sqrt(ch[0])
            elif nm == "EXP":
                r = math.exp(ch[0])
            elif nm == "LOG":
                r = math.log(ch[0])
            elif nm == "COSH":
                r = math.cosh(ch[0])
            else:
                r = random.Random(nm + "|" + "|".join(f"{float(c):.9e}" for c in ch)).uniform(0.3, 3)
                if z3.is_bool(t):
                    r = r > 1
        elif k == z3.Z3_OP_ITE:
            c = self.ev(t.arg(0), env, memo)
            r = self.ev(t.arg(1) if c else t.arg(2), env, memo)
        elif k == z3.Z3_OP_ADD:
            r = sum(ch)
        elif k == z3.Z3_OP_SUB:
            r = ch[0] - sum(ch[1:])
        elif k == z3.Z3_OP_UMINUS:
            r = -ch[0]
        elif k == z3.Z3_OP_MUL:
            r = math.prod(ch)
        elif k == z3.Z3_OP_DIV:
            r = ch[0] / ch[1]
        elif k == z3.Z3_OP_LE:
            r = ch[0] <= ch[1]
        elif k == z3.Z3_OP_LT:
            r = ch[0] < ch[1]
        elif k == z3.Z3_OP_GE:
            r = ch[0] >= ch[1]
        elif k == z3.Z3_OP_GT:
            r = ch[0] > ch[1]
        elif k == z3.Z3_OP_EQ:
            r = ch[0] == ch[1]
        elif k == z3.Z3_OP_DISTINCT:
            r = ch[0] != ch[1]
        elif k == z3.Z3_OP_AND:
            r = all(ch)
        elif k == z3.Z3_OP_OR:
            r = any(ch)
        elif k == z3.Z3_OP_NOT:
            r = not ch[0]
        elif k == z3.Z3_OP_TO_REAL:
            r = ch[0]
        else:
            raise ValueError(t.decl().name())
        memo[i] = r
        return r

    def ratom(self, t):
        """canonical atom of a term that is not arithmetic: uninterpreted functions of provably equal arguments are one atom"""
        i = t.get_id()
        if i in self.rid:
            return self.rid[i]
        rep = t
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for u in self.reps.setdefault(t.decl().get_id(), []):
                if all(self.eq(x, y) for x, y in zip(t.children(), u.children())):
                    rep = u
                    break
            else:
                self.reps[t.decl().get_id()].append(t)
        self.keep.append((t, rep))
        self.rid[i] = rep.get_id()
        self.rterm[rep.get_id()] = rep
        return self.rid[i]

    def indpoly(self, c):
        one = {(): Fraction(1)}
        k = c.decl().kind()
        if z3.is_true(c):
            return one
        if z3.is_false(c):
            return {}
        if k == z3.Z3_OP_NOT:
            return padd(one, self.indpoly(c.arg(0)), -1)
        if k == z3.Z3_OP_AND:
            p = one
            for x in c.children():
                p = self.pmul(p, self.indpoly(x))
            return p
        if k == z3.Z3_OP_OR:
            p = one
            for x in c.children():
                p = self.pmul(p, padd(one, self.indpoly(x), -1))
            return padd(one, p, -1)
        i = c.get_id()
        if i not in self.cid:
            self.keep.append(c)
            for r, neg, u in self.conds:
                if self.eq(c, u):
                    self.cid[i] = (r, False)
                    break
                if self.eq(c, z3.Not(u)):
                    self.cid[i] = (r, True)
                    break
            else:
                self.conds.append((i, False, c))
                self.cid[i] = (i, False)
                self.ind.add(i)
                self.rterm[i] = c
        r, neg = self.cid[i]
        p = {(r,): Fraction(1)}
        return padd(one, p, -1) if neg else p

    def nonneg(self, t):
        k = t.decl().kind()
        if z3.is_rational_value(t):
            return t.as_fraction() >= 0
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_DIV):
            return all(self.nonneg(c) for c in t.children())
        return t.decl().name() in ("SQRT", "EXP") or t.decl().name().startswith("n!")

    def pmul(self, p, q):
        out = {}
        if len(p) * len(q) > 60000:
            raise TooBig
        for m, v in p.items():
            for m2, v2 in q.items():
                mm = tuple(sorted(m + m2))
                if self.ind:
                    mm = tuple(x for i, x in enumerate(mm) if not (i and mm[i - 1] == x and x in self.ind))
                w = out.get(mm, 0) + v * v2
                if w:
                    out[mm] = w
                else:
                    out.pop(mm, None)
        if len(out) > 4000:
            raise TooBig
        return out

    def rat(self, t):
        i = t.get_id()
        if i in self.rmemo:
            r = self.rmemo[i]
            if r is None:
                raise TooBig
            return r
        self.rmemo[i] = None
        self.keep.append(t)
        r = self.rmemo[i] = self.unroot(self.rat0(t))
        return r

    def unroot(self, nd):
        """sqrt(u)**2 -> u"""
        n, d = nd
        for _ in range(4):
            sq = None
            for m in list(n) + list(d):
                for x, y in zip(m, m[1:]):
                    if x == y and self.rterm[x].decl().name() == "SQRT":
                        sq = x
            if sq is None:
                break
            un, ud = self.rat(self.rterm[sq].arg(0))
            # p(s) = sum_k p_k s^k  ->  s^(2j+e) = (un/ud)^j s^e ; common denominator ud^J
            J = max([m.count(sq) // 2 for m in list(n) + list(d)])
            pw_n, pw_d = [{(): Fraction(1)}], [{(): Fraction(1)}]
            for _k in range(J):
                pw_n.append(self.pmul(pw_n[-1], un))
                pw_d.append(self.pmul(pw_d[-1], ud))

            def red(p):
                out = {}
                for m, v in p.items():
                    k = m.count(sq)
                    rest = tuple(x for x in m if x != sq) + ((sq,) if k % 2 else ())
                    q = self.pmul({tuple(sorted(rest)): v}, self.pmul(pw_n[k // 2], pw_d[J - k // 2]))
                    out = padd(out, q, 1)
                return out
            n, d = red(n), red(d)
        return n, d

    def rat0(self, t):
        one = {(): Fraction(1)}
        k = t.decl().kind()
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return ({(): f} if f else {}), one
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.rat(t.arg(0))
            for c in t.children()[1:]:
                n2, d2 = self.rat(c)
                sg = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = padd(n, n2, sg)
                else:
                    n, d = padd(self.pmul(n, d2), self.pmul(n2, d), sg), self.pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(t.arg(0))
            return {m: -v for m, v in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = one, one
            for c in t.children():
                n2, d2 = self.rat(c)
                n, d = self.pmul(n, n2), self.pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(t.arg(0))
            n2, d2 = self.rat(t.arg(1))
            return self.pmul(n, d2), self.pmul(d, n2)
        if k == z3.Z3_OP_ITE:
            # if c then a else b  =  b + [c] * (a - b), with [c]*[c] = [c], [c and d] = [c]*[d], [not c] = 1 - [c]
            i = self.indpoly(t.arg(0))
            n, d = self.rat(t.arg(1))
            n2, d2 = self.rat(t.arg(2))
            if d == d2:
                return padd(n2, self.pmul(i, padd(n, n2, -1)), 1), d
            a, b = self.pmul(n, d2), self.pmul(n2, d)
            return padd(b, self.pmul(i, padd(a, b, -1)), 1), self.pmul(d, d2)
        return {(self.ratom(t),): Fraction(1)}, one

    # ---------- symbols
    def fresh(self, p, sort=Rl):
        self.fresh_n += 1
        return z3.Const(f"{p}{self.fresh_n}", sort)

    def uf(self, name, *args, sort=Rl):
        args = [b2r(a) for a in args]
        k = (name, len(args), str(sort))
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *([Rl] * len(args)), sort)
        return self.ufs[k](*args)

    def len_of(self, frame):
        k = (self.ctx, frame)
        if k not in self.N:
            i = len(self.N)
            self.N[k] = z3.Real(f"n!{i}") if not self.ctx else z3.Real(f"r!n{i}")
        return self.N[k]

    def shift_term(self, t, k):
        """value of the row term k rows earlier"""
        cs = consts(t)
        subs = []
        for n, c in cs.items():
            if n == "r!idx":
                subs.append((c, c - k))
            elif n.startswith("r!w") or n.startswith("r!n"):
                raise Unsupported("shift of a grouped value")
            elif n.startswith("r!"):
                base, _, off = n.partition("@")
                o = int(off or "0") + k
                nn = base + (f"@{o}" if o else "")
                subs.append((c, z3.Const(nn, c.sort())))
        return z3.substitute(t, *subs) if subs else t

    def offsets(self, t):
        return {int(n.partition("@")[2] or "0") for n in consts(t) if n.startswith("r!") and not n.startswith(("r!idx", "r!w", "r!n"))}

    def perm_count(self, term):
        """the number of rows whose place in a permutation of 0..n is below t: t, within 0 and n, rounded up"""
        ps = [x for x in subterms([term]) if z3.is_app(x) and x.decl().name().startswith("PERM:")]
        if len(ps) != 1:
            return None
        v, n = z3.Real("perm!v"), self.len_of("0")
        f = z3.substitute(term, (ps[0], v))
        if has_row(f):
            return None
        for x in subterms([f]):
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and "perm!v" in consts(x):
                for t in x.children():
                    if "perm!v" in consts(t):
                        continue
                    for below in (True, False):
                        if self.prove(f == (z3.If(v < t, z3.RealVal(1), z3.RealVal(0)) if below else z3.If(v >= t, z3.RealVal(1), z3.RealVal(0)))):
                            c = next((c for t2, c in self.perms if self.eq(t, t2)), None)
                            if c is None:
                                c = self.fresh("m!")
                                self.perms.append((t, c))
                                whole = z3.is_rational_value(t) and t.as_fraction().denominator == 1 or z3.is_app(t) and t.decl().name() == "CAST_INT"
                                for g in (c >= 0, c <= n, z3.Implies(t <= 0, c == 0), z3.Implies(t >= n, c == n), z3.Implies(z3.And(t >= 0, t <= n), c == t if whole else z3.And(t <= c, c < t + 1))):
                                    self.counts.append((c.decl().name(), g))
                            return c if below else n - c
        return None

    def moment(self, term, frame):
        """the sum of a row term over the frame, as one constant per provably equal term"""
        term = z3.simplify(term)
        if z3.is_rational_value(term):
            return z3.simplify(term * self.len_of(frame))
        for ctx, fr, t2, c in self.moments:
            if ctx == self.ctx and fr == frame and self.eq(term, t2):
                return c
        if frame == "0" and not self.ctx:
            k = self.perm_count(term)
            if k is not None:
                return k
        if frame == "0":
            # sums are invariant under translation of the row index (terms are 0 outside the frame)
            offs = self.offsets(term)
            if not offs and "r!idx" in consts(term):
                n, idx = self.len_of("0"), z3.Real("r!idx")
                mask = lambda t: z3.If(z3.And(idx >= 0, idx <= n - 1), t, z3.RealVal(0))
                for ctx, fr, t2, c in self.moments:
                    if ctx == self.ctx and fr == frame and not self.offsets(t2) and "r!idx" in consts(t2):
                        for k in range(-8, 9):
                            if k and self.prove(self.shift_term(mask(t2), k) == mask(term), bounded_idx=False):
                                return c
            if offs:
                n = self.len_of("0")
                idx = z3.Real("r!idx")
                mask = lambda t: z3.If(z3.And(idx >= 0, idx <= n - 1), t, z3.RealVal(0))
                for ctx, fr, t2, c in self.moments:
                    o2 = self.offsets(t2)
                    if ctx == self.ctx and fr == frame and o2 and len(o2) == len(offs) and o2 != offs:
                        k = min(offs) - min(o2)
                        try:
                            if self.prove(self.shift_term(mask(t2), k) == mask(term), bounded_idx=False):
                                return c
                        except Unsupported:
                            pass
        c = self.fresh("m!" if not self.ctx else "r!wm")
        self.moments.append((self.ctx, frame, term, c))
        return c

    # polynomial over row atoms with scalar coefficients: {tuple(sorted atom ids): coeff}
    def poly(self, t, atoms):
        if not has_row(t):
            return {(): t}
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            out = dict(self.poly(t.arg(0), atoms))
            for c in t.children()[1:]:
                for m, v in self.poly(c, atoms).items():
                    v = v if k == z3.Z3_OP_ADD else -v
                    out[m] = out[m] + v if m in out else v
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(t.arg(0), atoms).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): z3.RealVal(1)}
            for c in t.children():
                p = self.poly(c, atoms)
                new = {}
                for m, v in out.items():
                    for m2, v2 in p.items():
                        mm = tuple(sorted(m + m2))
                        new[mm] = new[mm] + v * v2 if mm in new else v * v2
                out = new
                if len(out) > 9:
                    raise Unsupported("polynomial too large")
            return out
        if k == z3.Z3_OP_DIV and not has_row(t.arg(1)):
            return {m: v / t.arg(1) for m, v in self.poly(t.arg(0), atoms).items()}
        if k == z3.Z3_OP_DIV:
            p = self.poly(t.arg(0), atoms)
            a = self.atom(1 / t.arg(1), atoms)
            return {tuple(sorted(m + (a,))): v for m, v in p.items()}
        if k == z3.Z3_OP_ITE and all(z3.is_rational_value(x) for x in t.children()[1:]) and [str(x) for x in t.children()[1:]] in (["1", "0"], ["0", "1"]):
            # an indicator and its complement are one atom
            b, neg = t.arg(0), str(t.arg(1)) == "0"
            if z3.is_not(b):
                b, neg = b.arg(0), not neg
            a = (self.atom(z3.If(b, z3.RealVal(1), z3.RealVal(0)), atoms),)
            return {(): z3.RealVal(1), a: z3.RealVal(-1)} if neg else {a: z3.RealVal(1)}
        return {(self.atom(t, atoms),): z3.RealVal(1)}

    def atom(self, t, atoms):
        for i, a in enumerate(atoms):
            if a.eq(t) or self.eq(a, t):
                return i
        atoms.append(t)
        return len(atoms) - 1

    def SUM(self, d):
        v = b2r(d.val)
        g = AND(d.dom, d.ok)
        if not d.row:
            raise Unsupported("sum of a scalar")
        if not hasattr(self, "_atoms"):
            self._atoms = {}
        atoms = self._atoms.setdefault(self.ctx, [])
        try:
            p = self.poly(v, atoms)
        except Unsupported:
            p = {(self.atom(v, atoms),): z3.RealVal(1)}
        tot = z3.RealVal(0)
        for m, c in p.items():
            c = z3.simplify(c)
            if z3.is_rational_value(c) and c.numerator_as_long() == 0:
                continue
            t = z3.RealVal(1)
            for a in m:
                t = t * atoms[a]
            tot = tot + c * self.moment(ITE(g, t, z3.RealVal(0)), d.frame)
        return tot

    def COUNT(self, d):
        if not d.row:
            return b2r(d.ok)
        return self.moment(b2r(AND(d.dom, d.ok)), d.frame)

    def LEN(self, d):
        if not d.row:
            return z3.RealVal(1)
        return self.moment(b2r(d.dom), d.frame)

    # ---------- opaque operators
    def same(self, a, b):
        if a.row != b.row or a.frame != b.frame:
            return False
        if (a.fields is None) != (b.fields is None):
            return False
        if a.fields is not None:
            return list(a.fields) == list(b.fields) and all(self.same(a.fields[k], b.fields[k]) for k in a.fields)
        if not self.eq(a.dom, b.dom):
            return False
        g = a.dom
        if not self.eq(AND(g, a.ok), AND(g, b.ok)):
            return False
        va, vb = b2r(a.val), b2r(b.val)
        if self.eq(va, vb):
            return True
        return self.prove(z3.Implies(AND(g, a.ok), va == vb))

    def opaque(self, key, args, row, newframe=False, ty="any", boolean=False, nonnull=False):
        for ctx, k, ar, d in self.opaques:
            if ctx == self.ctx and k == key and len(ar) == len(args) and all(self.same(x, y) for x, y in zip(ar, args)):
                return d
        if row:
            frame = f"f{len(self.opaques)}" if newframe else next((a.frame for a in args if a.row), "0")
            nm = f"r!o{len(self.opaques)}{'_' if self.ctx else ''}"
            d = Den(z3.Const(nm, Bo if boolean else Rl), T if nonnull else z3.Bool(nm + "ok"),
                    T if newframe else next((a.dom for a in args if a.row), T), True, ty, frame)
        else:
            p = "o!" if not self.ctx else "r!wo"
            nm = f"{p}{len(self.opaques)}"
            d = Den(z3.Const(nm, Bo if boolean else Rl), T if nonnull else z3.Bool(nm + "ok"), T, bool(self.ctx), ty, "0" if self.ctx else None)
        self.opaques.append((self.ctx, key, args, d))
        return d

    def elementwise(self, name, args, prop_null=True, ty="real", boolean=False):
        """uninterpreted elementwise function"""
        row, frame, dom = self.align(args)
        if prop_null:
            ok = AND(*[a.ok for a in args])
            val = self.uf(name, *[a.val for a in args], sort=Bo if boolean else Rl) if args else z3.Const("o!" + name, Rl)
        else:
            flat = []
            for a in args:
                flat += [ITE(a.ok, b2r(a.val), z3.RealVal(0)), b2r(a.ok)]
            val = self.uf(name, *flat, sort=Bo if boolean else Rl)
            ok = self.uf(name + "!ok", *flat, sort=Bo)
        return Den(val, ok, dom, row, ty, frame)

    def align(self, args):
        rows = [a for a in args if a.row]
        if not rows:
            return False, None, T
        f = rows[0].frame
        dom = rows[0].dom
        for r in rows[1:]:
            if r.frame != f or not self.eq(r.dom, dom):
                raise Unsupported("elementwise over different frames")
        return True, f, dom

    # ---------- translation
    def tr(self, j):
        key = (self.ctx, json.dumps(j, sort_keys=True))
        if key not in self.cache:
            self.cache[key] = self.tr0(j)
        return self.cache[key]

    def col(self, name):
        ty = self.types.get(name, "real")
        nm = f"r!{name}"
        v = z3.Const(nm, Bo if ty == "bool" else Rl)
        ok = z3.Bool(f"r!{name}?") if name in self.nullable else T
        return Den(v, ok, T, True, ty, "0")

    def lit(self, v):
        if v is None:
            return Den(z3.RealVal(0), F, ty="null")
        if isinstance(v, bool):
            return Den(z3.BoolVal(v), ty="bool", lit=v)
        if isinstance(v, (int, float)):
            if isinstance(v, float) and not math.isfinite(v):
                return Den(z3.Const(f"o!lit_{v}", Rl), ty="real", lit=v)
            q = z3.RealVal(v) if isinstance(v, int) else z3.RealVal(repr(v)) if "e" not in repr(v) else z3.Q(*v.as_integer_ratio())
            return Den(q, ty="int" if isinstance(v, int) else "real", lit=v)
        k = repr(v)
        self.lits.setdefault(k, len(self.lits))
        return Den(z3.Const(f"o!str{self.lits[k]}", Rl), ty="str", lit=v)

    def tr0(self, j):
        if j == "Len":
            return Den(self.len_of("0"), row=bool(self.ctx), frame="0" if self.ctx else None, ty="int")
        if isinstance(j, str):
            return self.opaque(j, [], True)
        (k, v), = j.items()
        m = getattr(self, "n_" + k, None)
        if m is None:
            raise Unsupported("node " + k)
        return m(v)

    def n_Column(self, v):
        return self.col(v)

    def n_Alias(self, v):
        return self.tr(v[0])

    def n_Literal(self, v):
        (k, x), = v.items()
        if k == "Dyn":
            (_, x), = x.items()
            if isinstance(x, str):
                x = float(x)
            return self.lit(x)
        if k == "Scalar":
            val = x["value"]
            if val == "Null":
                return self.lit(None)
            if isinstance(val, dict):
                (_, y), = val.items()
                if isinstance(y, (int, float, bool, str)):
                    return self.lit(y)
                return self.lit(json.dumps(val))
            return self.lit(json.dumps(val))
        return self.opaque("lit:" + json.dumps(v), [], True, newframe=True)

    INTS = {"Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64"}

    def n_Cast(self, v):
        a = self.tr(v["expr"])
        dt = v["dtype"]
        if isinstance(dt, dict) and len(dt) == 1:
            dt = list(dt.values())[0] if not isinstance(list(dt.values())[0], dict) else json.dumps(dt)
        if not isinstance(dt, str):
            dt = json.dumps(dt)
        if a.ty == "null":
            return a
        if dt in ("Float64", "Float32"):
            if a.ty in ("str", "any"):
                return self.elementwise("CAST_" + dt, [a], prop_null=False)
            return Den(b2r(a.val), a.ok, a.dom, a.row, "real" if a.ty in ("int", "bool") else a.ty, a.frame, lit=a.lit)
        if dt in self.INTS:
            if a.ty in ("int", "bool", "bool01", "posint", "ge1"):
                return Den(b2r(a.val), a.ok, a.dom, a.row, "int" if a.ty == "bool" else a.ty, a.frame, lit=a.lit)
            return self.elementwise("CAST_INT", [Den(b2r(a.val), a.ok, a.dom, a.row, a.ty, a.frame)] if a.val is not None else [a], ty="int")
        if dt == "Boolean":
            if z3.is_bool(a.val):
                return a
            return Den(a.val != 0, a.ok, a.dom, a.row, "bool", a.frame)
        if dt == "String" and a.ty == "str":
            return a
        return self.elementwise("CAST_" + dt, [a], ty="str" if dt == "String" else "any")

    def n_BinaryExpr(self, v):
        a, b, op = self.tr(v["left"]), self.tr(v["right"]), v["op"]
        row, frame, dom = self.align([a, b])
        ok = AND(a.ok, b.ok)
        x, y = a.val, b.val
        isint = lambda d: d.ty in ("int", "bool", "bool01", "posint", "ge1")
        ty = "int" if isint(a) and isint(b) else "real"
        if op in ("Plus", "Minus", "Multiply", "TrueDivide", "Divide", "Modulus", "FloorDivide"):
            if "str" in (a.ty, b.ty) or "any" in (a.ty, b.ty) and op not in ("Plus", "Minus", "Multiply", "TrueDivide"):
                return self.elementwise("OP_" + op, [a, b])
            x, y = b2r(x), b2r(y)
            if op == "Plus":
                r = x + y
            elif op == "Minus":
                r = x - y
            elif op == "Multiply":
                r = x * y
            elif op == "TrueDivide" or op == "Divide" and ty == "real":
                r, ty = x / y, "real"
            else:
                return self.elementwise("OP_" + op, [a, b], ty=ty)
            return Den(r, ok, dom, row, ty, frame)
        if op in ("Lt", "LtEq", "Gt", "GtEq"):
            x, y = b2r(x), b2r(y)
            r = {"Lt": x < y, "LtEq": x <= y, "Gt": x > y, "GtEq": x >= y}[op]
            return Den(r, ok, dom, row, "bool", frame)
        if op in ("Eq", "NotEq", "EqValidity", "NotEqValidity"):
            if z3.is_bool(x) != z3.is_bool(y):
                x, y = b2r(x), b2r(y)
            r = x == y
            if "Validity" in op:
                r, ok = OR(AND(a.ok, b.ok, r), AND(NOT(a.ok), NOT(b.ok))), T
            if op.startswith("Not"):
                r = NOT(r)
            return Den(r, ok, dom, row, "bool", frame)
        if op in ("And", "Or", "Xor", "LogicalAnd", "LogicalOr"):
            if not (z3.is_bool(x) and z3.is_bool(y)):
                return self.elementwise("OP_" + op, [a, b])
            if op == "Xor":
                return Den(z3.Xor(x, y), ok, dom, row, "bool", frame)
            return self.kleene("And" if "And" in op else "Or", [a, b], row, frame, dom)
        raise Unsupported("operator " + op)

    def kleene(self, op, ds, row, frame, dom):
        if op == "And":
            f = OR(*[AND(d.ok, NOT(d.val)) for d in ds])
            t = AND(*[AND(d.ok, d.val) for d in ds])
        else:
            t = OR(*[AND(d.ok, d.val) for d in ds])
            f = AND(*[AND(d.ok, NOT(d.val)) for d in ds])
        return Den(t, OR(t, f), dom, row, "bool", frame)

    def n_Ternary(self, v):
        c, a, b = self.tr(v["predicate"]), self.tr(v["truthy"]), self.tr(v["falsy"])
        row, frame, dom = self.align([c, a, b])
        g = AND(c.ok, self.asbool(c))
        x, y = a.val, b.val
        if a.ty == "null":
            x = y
        if b.ty == "null":
            y = x
        ty = a.ty if a.ty == b.ty or b.ty == "null" else b.ty if a.ty == "null" else "real"
        return Den(ITE(g, x, y), ITE(g, a.ok, b.ok), dom, row, ty, frame)

    def n_Filter(self, v):
        a, c = self.tr(v["input"]), self.tr(v["by"])
        row, frame, dom = self.align([a, c])
        if not row:
            raise Unsupported("filter of a scalar")
        return Den(a.val, a.ok, AND(dom, c.ok, self.asbool(c)), True, a.ty, frame)

    @staticmethod
    def asbool(d):
        return d.val if z3.is_bool(d.val) else d.val != 0

    def scalar(self, val, ok=T, ty="real"):
        return Den(val, ok, T, bool(self.ctx), ty, "0" if self.ctx else None)

    def n_Agg(self, v):
        (k, x), = v.items()
        if k == "Count":
            a = self.tr(x[0])
            return self.scalar(self.LEN(a) if x[1] else self.COUNT(a), ty="int")
        if k == "First" and isinstance(x, dict) and "Column" in x and x["Column"].startswith("S_"):
            ty = self.types.get(x["Column"], "real")
            return Den(z3.Real("s!" + x["Column"]), T, T, False, ty, None)
        inner = x[0] if isinstance(x, list) else (x.get("input") or x.get("expr")) if isinstance(x, dict) and ("input" in x or "expr" in x) else x
        a = self.tr(inner)
        if k == "Sum" and a.row:
            if z3.is_bool(a.val):
                return self.scalar(self.SUM(a), ty="int")
            if a.ty not in ("str",):
                return self.scalar(self.SUM(a), ty="int" if a.ty in ("int", "bool01") else "real")
        if k == "Mean" and a.row and a.ty != "str":
            c = self.COUNT(a)
            return self.scalar(self.SUM(a) / c, self.nonempty(c, a))
        if k in ("Var", "Std") and a.row:
            n = self.COUNT(a)
            s1 = self.SUM(a)
            s2 = self.SUM(Den(b2r(a.val) * b2r(a.val), a.ok, a.dom, True, "real", a.frame))
            var = (s2 - s1 * s1 / n) / (n - x[1])
            ok = n > x[1]
            return self.scalar(var if k == "Var" else self.uf("SQRT", var), ok)
        par = [y for y in x[1:]] if isinstance(x, list) else {kk: vv for kk, vv in x.items() if kk not in ("input", "expr")} if isinstance(x, dict) and inner is not x else None
        extra = []
        if k == "Quantile":
            extra = [self.tr(x["quantile"])]
            par = x["method"]
            q = extra[0].lit
            if q == 0.5 and par == "Linear":
                k, par, extra = "Median", None, []
        ty = a.ty if k in ("Min", "Max", "First", "Last") else "real" if k in ("Median", "Quantile") else "int" if k in ("NUnique",) else "any"
        o = self.opaque(f"agg:{k}:{json.dumps(par, sort_keys=True)}", [a] + extra, False, ty=ty, boolean=z3.is_bool(a.val) and k in ("Min", "Max", "First", "Last"))
        if k == "NUnique":
            o.ok = T        # a count is never null
        return o

    def nonempty(self, c, a):
        if z3.is_true(a.ok) and z3.is_true(a.dom):
            return T
        return c > 0

    def n_Sort(self, v):
        a = self.tr(v["expr"])
        return self.opaque("sort:" + json.dumps(v.get("options"), sort_keys=True), [a], True, newframe=True, ty=a.ty)

    def n_SortBy(self, v):
        a = self.tr(v["expr"])
        by = [self.tr(b) for b in v["by"]]
        return self.opaque("sortby:" + json.dumps(v.get("sort_options"), sort_keys=True), [a] + by, True, newframe=True, ty=a.ty)

    def n_Gather(self, v):
        a, i = self.tr(v["expr"]), self.tr(v["idx"])
        return self.opaque("gather", [a, i], not v.get("returns_scalar"), newframe=True, ty=a.ty)

    def n_Slice(self, v):
        a, o, l = self.tr(v["input"]), self.tr(v["offset"]), self.tr(v["length"])
        return self.opaque("slice", [a, o, l], True, newframe=True, ty=a.ty)

    def n_Explode(self, v):
        a = self.tr(v["input"] if "input" in v else v)
        return self.opaque("explode:" + json.dumps((v.get("options") or v.get("skip_empty")) if "input" in v else None), [a], True, newframe=True)

    def n_Window(self, v):
        parts = [self.tr(p) for p in v["partition_by"]]
        if v.get("order_by"):
            raise Unsupported("window order")
        if v["options"] != {"Over": "GroupsToRows"}:
            raise Unsupported("window mapping")
        pid = None
        if not hasattr(self, "_parts"):
            self._parts = []
        for i, (c, ps) in enumerate(self._parts):
            if c == self.ctx and len(ps) == len(parts) and all(self.same(a, b) for a, b in zip(ps, parts)):
                pid = i
        if pid is None:
            pid = len(self._parts)
            self._parts.append((self.ctx, parts))
        old = self.ctx
        self.ctx = old + (pid,)
        try:
            d = self.tr(v["function"])
        finally:
            self.ctx = old
        if d.row and d.frame != "0":
            raise Unsupported("window over a new frame")
        return Den(d.val, d.ok, d.dom, True, d.ty, "0")

    def n_Eval(self, v):
        a = self.tr(v["expr"])
        return self.elementwise("EVAL" + json.dumps(v.get("evaluation"), sort_keys=True) + json.dumps(v.get("variant"), sort_keys=True), [a], prop_null=False, ty="any")

    def n_Function(self, v):
        f, ins = v["function"], v["input"]
        if isinstance(f, dict):
            (name, par), = f.items()
        else:
            name, par = f, None
        if name == "FfiPlugin":
            return self.plugin(par, ins)
        if name == "AsStruct":
            fields = {}
            for e in ins:
                nm = self.outname(e)
                fields[nm] = self.tr(e)
            row, frame, dom = self.align(list(fields.values()))
            return Den(z3.RealVal(0), T, dom, row, "struct", frame, fields)
        if name in ("Replace", "ReplaceStrict"):
            # a map of values: a function of the value, named by the table's own expressions
            rest = [self.tr(e) for e in ins[3:]]
            return self.elementwise("fn:" + json.dumps([f, ins[1:3]], sort_keys=True), [self.tr(ins[0])] + rest, prop_null=False, ty="any")
        args = [self.tr(e) for e in ins]
        a = args[0] if args else None
        if name == "StructExpr":
            (op, arg), = par.items() if isinstance(par, dict) else ((par, None),)
            if op == "FieldByName":
                if a.fields is not None:
                    return a.fields[arg]
                if a.row:
                    return self.elementwise("FIELD_" + str(arg), [a], prop_null=False, ty="any")
                return self.opaque("FIELD_" + str(arg), [a], False)
            if op == "RenameFields":
                return self.opaque("RENAME" + json.dumps(arg), [a], a.row)
        if any(d.fields is not None for d in args):
            raise Unsupported("function of a struct: " + name)
        row, frame, dom = self.align(args) if name not in ("Correlation", "Range", "MinHorizontal_") else (a.row, a.frame, a.dom)
        mk = lambda val, ok=None, ty="real": Den(val, AND(*[d.ok for d in args]) if ok is None else ok, dom, row, ty, frame)
        r = b2r(a.val) if a is not None else None
        if name == "Abs":
            return mk(z3.If(r >= 0, r, -r), ty=a.ty)
        if name == "Negate":
            return mk(-r, ty=a.ty if a.ty == "int" else "real")
        if name == "Sign":
            return mk(z3.If(r > 0, z3.RealVal(1), z3.If(r < 0, z3.RealVal(-1), z3.RealVal(0))))
        if name == "Exp":
            return mk(self.uf("EXP", r))
        if name == "Log1p":
            return mk(self.uf("LOG", 1 + r))
        if name == "Log":
            base = par["base"] if isinstance(par, dict) else args[1].lit if len(args) > 1 else math.e
            if len(args) > 1 and args[1].lit is None:
                return mk(self.uf("LOG", r) / self.uf("LOG", args[1].val))
            if abs(base - math.e) < 1e-15:
                return mk(self.uf("LOG", r))
            return mk(self.uf("LOG", r) / self.uf("LOG", self.lit(base).val))
        if name == "Pow":
            if par == "Sqrt":
                return mk(self.uf("SQRT", r))
            if par == "Cbrt":
                return mk(self.uf("CBRT", r))
            e = args[1].lit
            if isinstance(e, (int, float)) and float(e).is_integer() and 0 <= e <= 6:
                t = z3.RealVal(1)
                for _ in range(int(e)):
                    t = t * r
                return mk(t, ty=a.ty if a.ty == "int" else "real")
            if e == 0.5:
                return mk(self.uf("SQRT", r))
            if e == -1:
                return mk(1 / r)
            return self.elementwise("POW", args)
        if name == "Trigonometry":
            return mk(self.uf(str(par).upper(), r))
        if name == "Boolean":
            return self.boolean(par, args, row, frame, dom, mk)
        if name == "FillNull":
            b = args[1]
            return mk(ITE(a.ok, a.val, b.val), OR(a.ok, b.ok), a.ty)
        if name == "Clip":
            i = 1
            val, ok = r, a.ok
            if par["has_min"]:
                lo = args[i]; i += 1
                val = ITE(AND(lo.ok, val < b2r(lo.val)), b2r(lo.val), val)
            if par["has_max"]:
                hi = args[i]
                val = ITE(AND(hi.ok, val > b2r(hi.val)), b2r(hi.val), val)
            return mk(val, ok)
        if name in ("MinHorizontal", "MaxHorizontal"):
            val, ok = r, a.ok
            for d in args[1:]:
                y = b2r(d.val)
                better = y < val if name.startswith("Min") else y > val
                val = ITE(AND(d.ok, OR(NOT(ok), better)), y, val)
                ok = OR(ok, d.ok)
            return mk(val, ok)
        if name == "SumHorizontal" and par.get("ignore_nulls"):
            val = z3.RealVal(0)
            for d in args:
                val = val + ITE(d.ok, b2r(d.val), z3.RealVal(0))
            return mk(val, T)
        if name == "Shift" and isinstance(args[1].lit, int) and a.row and a.frame == "0" and not self.ctx and z3.is_true(a.dom):
            return self.shifted(a, args[1].lit)
        if name == "Diff" and isinstance(args[1].lit, int) and a.row and a.frame == "0" and not self.ctx and z3.is_true(a.dom):
            n = args[1].lit
            s = self.shifted(a, n)
            idx = z3.Real("r!idx")
            d = Den(r - b2r(s.val), AND(a.ok, s.ok), T, True, a.ty, "0")
            if par == "Drop":
                sub = self.shift_term(a.ok, n)
                d.ok = AND(a.ok, sub)
                d.dom = idx >= n
            return d
        if name == "Random" and isinstance(par, dict) and par.get("method") == "Shuffle" and self.ctx and a.row and a.frame == "0":
            return self.opaque("shuffle:" + str(par.get("seed")), args, True, ty=a.ty)
        if name == "Range" and isinstance(par, dict) and "IntRange" in par and par["IntRange"].get("step") == 1 and args[0].lit == 0 and args[1].val.eq(self.len_of("0")) and self.ctx:
            d = self.opaque("place in the group", [], True, nonnull=True, ty="int")
            return d
        if name == "Random" and isinstance(par, dict) and par.get("method") == "Shuffle" and not self.ctx and a.row and a.val.eq(z3.Real("r!idx")):
            # the row numbers in another order: a permutation, the same for the same seed
            return Den(self.uf("PERM:" + str(par.get("seed")), a.val), T, T, True, "int", "0")
        if name == "Range" and isinstance(par, dict) and "IntRange" in par and par["IntRange"].get("step") == 1 and args[0].lit == 0 and args[1].val.eq(self.len_of("0")) and not self.ctx:
            return Den(z3.Real("r!idx"), T, T, True, "int", "0")
        if name == "Correlation":
            meth = par["method"]
            if isinstance(meth, dict) and "Covariance" in meth or meth == "Pearson":
                row, frame, dom = self.align(args)
                ok = AND(args[0].ok, args[1].ok)
                x, y = b2r(args[0].val), b2r(args[1].val)
                S = lambda t: self.SUM(Den(t, ok, dom, True, "real", frame))
                n = self.COUNT(Den(x, ok, dom, True, "real", frame))
                sx, sy = S(x), S(y)
                cov = S(x * y) - sx * sy / n
                if meth == "Pearson":
                    vx, vy = S(x * x) - sx * sx / n, S(y * y) - sy * sy / n
                    return self.scalar(cov / self.uf("SQRT", vx * vy), n > 0)
                ddof = meth["Covariance"]
                return self.scalar(cov / (n - ddof), n > ddof)
            return self.opaque("fn:" + json.dumps(f), args, False)
        if name == "NullCount":
            return self.scalar(self.LEN(a) - self.COUNT(a), ty="int")
        if name == "DropNulls":
            return Den(a.val, a.ok, AND(a.dom, a.ok), True, a.ty, a.frame)
        if name == "Rechunk":
            return a
        flags = json.dumps(v.get("options"))
        scalar_out = "RETURNS_SCALAR" in flags
        elemw = v.get("options", {}).get("collect_groups") == "ElementWise"
        key = "fn:" + json.dumps(f, sort_keys=True)
        if elemw and not scalar_out:
            return self.elementwise(key, args, prop_null=False, ty="any")
        if scalar_out:
            return self.opaque(key, args, False)
        keep = name in ("Shift", "Diff", "CumSum", "CumCount", "CumMax", "CumMin", "CumProd", "Rank", "ShiftAndFill", "RollingExpr", "Reverse", "FillNullWithStrategy", "EwmMean", "PctChange")
        return self.opaque(key, args, True, newframe=not keep or name == "Reverse", ty="real" if keep else "any")

    def outname(self, e):
        (k, v), = e.items() if isinstance(e, dict) else ((e, None),)
        if k == "Alias":
            return v[1]
        if k == "Column":
            return v
        if k == "BinaryExpr":
            return self.outname(v["left"])
        if k == "Function":
            f = v["function"]
            if isinstance(f, dict) and "StructExpr" in f and isinstance(f["StructExpr"], dict) and "FieldByName" in f["StructExpr"]:
                return f["StructExpr"]["FieldByName"]
            return self.outname(v["input"][0]) if v["input"] else "?"
        if k == "Cast":
            return self.outname(v["expr"])
        if k == "Literal":
            return "literal"
        if k == "Ternary":
            return self.outname(v["truthy"])
        return "?"

    def boolean(self, par, args, row, frame, dom, mk):
        (op, arg), = par.items() if isinstance(par, dict) else ((par, None),)
        a = args[0]
        if op == "Not" and z3.is_bool(a.val):
            return mk(NOT(a.val), ty="bool")
        if op == "IsNull":
            return mk(NOT(a.ok), T, "bool")
        if op == "IsNotNull":
            return mk(a.ok, T, "bool")
        if op in ("IsFinite", "IsNan", "IsNotNan", "IsInfinite"):
            t = self.uf("FINITE" if "fin" in op.lower() else "NAN", b2r(a.val), sort=Bo)
            return mk(NOT(t) if op in ("IsNotNan", "IsInfinite") and op == "IsNotNan" else self.uf("INF", b2r(a.val), sort=Bo) if op == "IsInfinite" else t, a.ok, "bool")
        if op == "IsBetween":
            x, lo, hi = b2r(a.val), b2r(args[1].val), b2r(args[2].val)
            c = arg["closed"]
            return mk(z3.And(x >= lo if c in ("Both", "Left") else x > lo, x <= hi if c in ("Both", "Right") else x < hi), ty="bool")
        if op == "AllHorizontal":
            return self.kleene("And", args, row, frame, dom)
        if op == "AnyHorizontal":
            return self.kleene("Or", args, row, frame, dom)
        if op in ("Any", "All") and isinstance(arg, dict) and arg.get("ignore_nulls") and a.row:
            bad = AND(a.dom, a.ok, self.asbool(a) if op == "Any" else NOT(self.asbool(a)))
            c = z3.RealVal(0) if self.prove(z3.Not(bad)) else self.moment(b2r(bad), a.frame)
            return self.scalar(c > 0 if op == "Any" else c <= 0, ty="bool")
        key = "bool:" + json.dumps(par, sort_keys=True)
        if op in ("IsUnique", "IsDuplicated", "IsFirstDistinct", "IsLastDistinct"):
            return self.opaque(key, args, True, boolean=True, nonnull=True, ty="bool")
        return self.elementwise(key, args, prop_null=False, boolean=True, ty="bool")

    def shifted(self, a, k):
        idx, n = z3.Real("r!idx"), self.len_of("0")
        inb = z3.And(idx - k >= 0, idx - k <= n - 1)
        return Den(self.shift_term(a.val, k), AND(inb, self.shift_term(a.ok, k)), T, True, a.ty, "0")

    def plugin(self, par, ins):
        sym = par["symbol"]
        kw = {}
        if sym == "__vx_leval":
            a = self.tr(ins[0])
            old, self.ctx = self.ctx, self.ctx + ("L",)
            try:
                b = self.tr(ins[1])
            finally:
                self.ctx = old
            return self.opaque("list.eval", [a, b], a.row)
        if par["kwargs"]:
            kw = pickle.loads(bytes(par["kwargs"]))
        args = [self.tr(e) for e in ins]
        if sym in MARKS:
            return MARKS[sym](self, args, kw)
        flags = json.dumps(par["flags"])
        if sym in NAMED:
            kw["__names"] = [self.outname(e) for e in ins]
        key = f"plugin:{sym}:{json.dumps(kw, sort_keys=True, default=str)}"
        ew = par["flags"]["collect_groups"] == "ElementWise"
        args = [self.flatten(a) for a in args]
        args = [x for y in args for x in y]
        if ew and "CHANGES_LENGTH" not in flags and sym not in NOT_ROWWISE:
            try:
                return self.elementwise(key, args, prop_null=sym in NULLPROP, ty="real" if sym in NUMERIC else "any")
            except Unsupported:
                pass
        if "RETURNS_SCALAR" in flags:
            return self.opaque(key, args, False, nonnull=sym in NONNULL_SCALAR)
        if sym in ROW_COUNT and z3.simplify(b2r(args[0].val)).eq(self.len_of("0")):
            return self.opaque(key, args, True, nonnull=True)
        keep = "CHANGES_LENGTH" not in flags and any(x.row for x in args) and all(not x.row or x.frame == "0" and z3.is_true(x.dom) for x in args)
        return self.opaque(key, args, True, newframe=not keep)

    def flatten(self, a):
        return [y for k in a.fields for y in self.flatten(a.fields[k])] if a.fields is not None else [a]


# row-wise plugins whose output is null exactly where an input is null, and numeric otherwise
NUMERIC = {"pl_xlogy", "pl_expit", "pl_logit", "pl_gamma", "pl_exp2", "pl_fract", "pl_trunc", "pl_haversine", "pl_gcd", "pl_lcm",
           "pl_next_up", "pl_next_down", "pl_diagamma", "pl_roc_auc", "pl_knn_entropy"}
NULLPROP = {"pl_xlogy", "pl_expit", "pl_logit", "pl_exp2", "pl_fract", "pl_trunc"}
NOT_ROWWISE = {"pl_random", "pl_rand_int", "pl_rand_str", "pl_rand_binomial", "pl_rand_exp", "pl_rand_normal", "pl_perturb", "pl_jitter"}
NAMED = {"pl_lstsq_multi", "pl_lstsq_multi_pred"}     # output field names come from the input names
ROW_COUNT = {"pl_random"}          # first argument is the number of rows returned
NONNULL_SCALAR = {"pl_roc_auc"}


def _mark_append(eng, args, kw):
    return eng.opaque("append", args, True, newframe=True, ty="real")


def _mark_map(eng, args, kw):
    return eng.opaque("mark:" + json.dumps(kw, sort_keys=True), args, kw.get("row", True), newframe=True)


MARKS = {"__vx_append": _mark_append, "__vx_map": _mark_map}


def mark(sym, args, kw=None):
    import polars_ds
    from polars.plugins import register_plugin_function
    return register_plugin_function(plugin_path=SO, function_name=sym, args=args, kwargs=kw)


SO = None


class Patches:
    """Polars operators that cannot be serialised are replaced, while a tree is captured, by a named node"""

    def __enter__(self):
        self.old = {n: getattr(pl.Expr, n) for n in ("append", "arg_max", "arg_min", "top_k", "map_batches", "map_elements", "rechunk")}
        pl.Expr.append = lambda s, o, upcast=True: mark("__vx_append", [s, o if isinstance(o, pl.Expr) else pl.lit(o)])
        pl.Expr.arg_max = lambda s: mark("__vx_map", [s], {"op": "arg_max", "row": False})
        pl.Expr.arg_min = lambda s: mark("__vx_map", [s], {"op": "arg_min", "row": False})
        from polars.expr.list import ExprListNameSpace as LN
        self.ln, self.leval, self.elem = LN, LN.eval, pl.element
        LN.eval = lambda s, e, parallel=False: mark("__vx_leval", [pl.Expr._from_pyexpr(s._pyexpr), e])
        pl.element = lambda: pl.col("__element__")
        pl.Expr.rechunk = lambda s: s        # memory layout only
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(pl.Expr, n, f)
        self.ln.eval, pl.element = self.leval, self.elem


def tree(e):
    return json.loads(e.meta.serialize(format="json"))


def leaves(d, pfx=""):
    if d.fields is None:
        return [(pfx, d)]
    return [x for k in d.fields for x in leaves(d.fields[k], pfx + "." + k)]


# ---------------------------------------------------------------- concrete evaluation
def gen_frame(rng, types, nullable, n):
    cols = {}
    dup = rng.random() < 0.3
    for c, ty in types.items():
        g = lambda: (rng.choice([rng.gauss(0, 2), rng.gauss(0, 2), float(rng.randint(-3, 3))]) if not dup else float(rng.randint(-2, 2)))
        if ty == "real":
            v = [g() for _ in range(n)]
        elif ty in ("pos",):
            v = [abs(g()) + 0.1 for _ in range(n)]
        elif ty == "nonneg":
            v = [abs(g()) for _ in range(n)]
        elif ty == "unit":
            v = [rng.uniform(0.02, 0.98) for _ in range(n)]
        elif ty == "bool01":
            v = [rng.randint(0, 1) for _ in range(n)]
            if n > 1:
                v[0], v[1] = 0, 1
        elif ty == "bool":
            v = [rng.random() < 0.5 for _ in range(n)]
            if n > 1:
                v[0], v[1] = True, False
        elif ty == "int":
            v = [rng.randint(-4, 4) for _ in range(n)]
        elif ty in ("posint", "ge1"):
            v = [rng.randint(1, 6) for _ in range(n)]
        elif ty == "group":
            v = [rng.randint(0, 2) for _ in range(n)]
        elif ty == "idx":
            v = list(range(n))
        elif ty == "str":
            v = ["".join(rng.choice("abcd ") for _ in range(rng.randint(0, 6))) for _ in range(n)]
        elif ty == "sorted":
            v = sorted(rng.gauss(0, 2) for _ in range(n))
        elif ty == "scalar":
            v = [rng.uniform(0.2, 3)] * n
        elif ty == "list":
            v = [[rng.uniform(0.05, 1) for _ in range(3)] for _ in range(n)]
        elif callable(ty):
            v = ty(rng, n)
        else:
            raise ValueError(ty)
        if c.startswith("S_"):
            v = [v[0]] * n
        if c in nullable and n > 2:
            v = [None if rng.random() < 0.2 and i > 1 else x for i, x in enumerate(v)]
        cols[c] = v
    return pl.DataFrame(cols)


def differs(a, b, tol=1e-7):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) != set(b) or any(differs(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differs(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, pl.Series):
        a = a.to_list()
        return differs(a, b, tol)
    if isinstance(b, pl.Series):
        return differs(a, b.to_list(), tol)
    if a is None or b is None:
        return (a is None) != (b is None)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) != bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        a, b = float(a), float(b)
        if not math.isfinite(b):
            return False        # outside the modelled domain (real numbers)
        if not math.isfinite(a):
            return True
        return abs(a - b) > tol * max(1.0, abs(a), abs(b))
    return a != b


def concrete(code, spec, ob, tries, seed):
    """a frame on which the two trees differ, or None"""
    rng = random.Random(seed)
    ran = 0
    for i in range(tries):
        n = rng.choice([ob.get("min_rows", 4), 5, 7, 12, 20])
        n = max(n, ob.get("min_rows", 4))
        df = gen_frame(rng, ob["types"], ob.get("nullable", ()), n)
        try:
            w = df.select(spec().alias("v"))["v"].to_list()
        except Exception:
            continue
        if ob.get("real"):
            # the function itself, fitted on the training columns and applied to the others
            try:
                g = ob["real"](df)
            except Exception:
                continue
        else:
            try:
                g = df.select(code().alias("v"))["v"].to_list()
            except Exception as e:
                g = f"raised {type(e).__name__}: {e}"[:300]
        ran += 1
        if ob.get("unordered"):
            key = lambda r: json.dumps({k: x for k, x in r.items() if isinstance(x, str) or x is None}, sort_keys=True) if isinstance(r, dict) else str(r)
            g, w = sorted(g, key=key) if isinstance(g, list) else g, sorted(w, key=key)
        if differs(g, w, ob.get("tol", 1e-6)):
            # confirm on a second evaluation (nothing random may enter)
            return {"frame": df.to_dict(as_series=False), "got": repr(g)[:500], "want": repr(w)[:500]}, ran
    return None, ran


def check(ob, tier, seed):
    """one contract: {fn, call, spec, types, nullable}"""
    res = {"obligations": 0, "discharged": 0, "failures": [], "undecided": [], "ms": 0}
    name = ob["name"]
    try:
        with Patches():
            jc = tree(ob["call"]())
    except Exception as e:
        jc, err = None, f"{type(e).__name__}: {e}"
    try:
        with Patches():
            js = tree(ob["spec"]())
    except Exception as e:
        res["undecided"].append(f"{name}: the contract's own expression could not be built: {type(e).__name__}: {e}"[:300])
        res["obligations"] = 1
        return res
    res["plugin"] = "FfiPlugin" in json.dumps(js)
    todo = []
    if jc is None:
        todo.append(("tree", err))
        res["obligations"] = 1
    else:
        eng = Engine(ob["types"], set(ob.get("nullable", ())), ob.get("pre"), 4000 if tier == "quick" else 20000)
        try:
            ds = eng.tr(js)
            eng.n_spec_moments = len(eng.moments)
            dc = eng.tr(jc)
            ls, lc = leaves(ds), leaves(dc)
            if [k for k, _ in ls] != [k for k, _ in lc]:
                todo.append(("fields", f"{[k for k, _ in lc]} instead of {[k for k, _ in ls]}"))
                res["obligations"] += 1
            else:
                for (k, s), (_, c) in zip(ls, lc):
                    res["obligations"] += 3
                    if s.row != c.row or s.frame != c.frame or not eng.eq(s.dom, c.dom):
                        todo.append((k + "length", "rows not shown equal"))
                    else:
                        res["discharged"] += 1
                    g = s.dom
                    if eng.eq(AND(g, s.ok), AND(g, c.ok)):
                        res["discharged"] += 1
                    else:
                        todo.append((k + "validity", "null-ness not shown equal"))
                    res["obligations"] += 1
                    mom = [t for _, _, t, _ in eng.moments[eng.n_spec_moments:]]
                    bad = eng.defined([b2r(s.val), s.ok], [b2r(c.val)] + mom, [AND(c.dom, c.ok)])
                    if bad:
                        todo.append((k + "divisions", "may be zero: " + "; ".join(bad[:3])))
                    else:
                        res["discharged"] += 1
                    if eng.eq(b2r(s.val), b2r(c.val)) or eng.prove(z3.Implies(AND(g, s.ok), b2r(s.val) == b2r(c.val))):
                        res["discharged"] += 1
                    else:
                        todo.append((k + "value", f"{z3.simplify(b2r(c.val))} == {z3.simplify(b2r(s.val))}"[:400]))
        except (Unsupported, z3.Z3Exception, ValueError, KeyError, RecursionError, AttributeError, TypeError) as e:
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
            todo.append(("tree", f"not expressible: {type(e).__name__}: {e}"[:300]))
            res["obligations"] = max(1, res["obligations"])
        res["ms"] = eng.solver_ms
    if todo:
        cx, ran = (None, 0)
        if not ob.get("no_eval"):
            cx, ran = concrete(ob["call"], ob["spec"], ob, 40 if tier == "quick" else 400, seed)
        if cx:
            res["failures"].append({"key": f"expr:{name}", "clause": f"{ob['fn']} denotes {ob.get('says', 'its formula')}", "fn": ob["fn"],
                                    "message": "; ".join(f"{k}: {m}" for k, m in todo)[:600], "confirmed": True, **cx})
        else:
            res["undecided"] += [f"{name} [{k}]: not proved ({m}); equal on {ran} frames"[:400] for k, m in todo]
    return res


def rust_hash(root="/repo"):
    """hash of the Rust sources without comments and white space"""
    import hashlib, re
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(root, "src"))):
        for f in sorted(fs):
            if f.endswith(".rs"):
                t = open(os.path.join(d, f)).read()
                t = re.sub(r"//[^\n]*", "", t)
                h.update((os.path.relpath(os.path.join(d, f), root) + re.sub(r"\s+", "", t)).encode())
    return h.hexdigest()


SHA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "rust_src.sha")


def main():
    if sys.argv[1] == "--baseline":
        open(SHA, "w").write(rust_hash() + "\n")
        return
    pid, tier, outp = sys.argv[1:4]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    global SO
    import polars_ds
    d = os.path.dirname(polars_ds.__file__)
    SO = [os.path.join(d, f) for f in os.listdir(d) if f.endswith((".so", ".pyd", ".dylib"))][0]
    import exprspec
    out = {"obligations": 0, "discharged": 0, "failures": [], "undecided": [], "functions": [], "trusted": exprspec.TRUSTED, "solver_ms": 0, "contracts": []}
    t_end = time.time() + (100 if tier == "quick" else 600)
    rust_changed = not os.path.exists(SHA) or open(SHA).read().strip() != rust_hash()
    for ob in exprspec.obligations(pid):
        if time.time() > t_end:
            out["undecided"].append(f"{ob['name']}: out of time")
            out["obligations"] += 1
            continue
        t0 = time.time()
        r = check(ob, tier, seed)
        if r["failures"] and r.get("plugin") and rust_changed:
            # the contract speaks of a Rust plugin by its calling convention; if the Rust side changed as well, the
            # convention may have: the Python tree alone does not decide
            r["undecided"] += [f"{z['key']}: differs, but the Rust side of the call changed too" for z in r["failures"]]
            r["failures"] = []
        out["obligations"] += r["obligations"]
        out["discharged"] += r["discharged"]
        out["failures"] += r["failures"]
        out["undecided"] += r["undecided"]
        out["solver_ms"] += r["ms"]
        out["contracts"].append({"contract": ob["name"], "obligations": r["obligations"], "discharged": r["discharged"], "wall_ms": int(1000 * (time.time() - t0))})
        f = ob["fn"]
        if f not in out["functions"]:
            out["functions"].append(f)
    out["solver_ms"] = int(out["solver_ms"])
    json.dump(out, open(outp, "w"), indent=1, default=str)


if __name__ == "__main__":
    import exprvc
    exprvc.main()
