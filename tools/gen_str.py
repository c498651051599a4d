#!/usr/bin/env python3
"""Writes contracts/strdist.vrs and contracts/strsets.vrs: one contract block per string function, all of one shape."""
import os
C = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
HEAD = """// written by tools/gen_str.py
//@include prelude_real.rs
//@default types=T:R,f64:R,str:Str parcols=1 strip=HashSet
//@include split.inc
//@include cols.rs
"""
PAIRS = """verus!{
// the second column is a literal when it has one row
pub open spec fn pairs<U>(a: Seq<Option<&Str>>, b: Seq<Option<&Str>>, f: spec_fn(&Str, &Str) -> U) -> Seq<Option<U>> {
  if b.len() == 1 { match b[0] { None => nulls::<U>(a.len()), Some(y) => map1(a, |x: &Str| f(x, y)) } } else { map2(a, b, f) } }
pub open spec fn shapes_ok(a: Seq<Option<&Str>>, b: Seq<Option<&Str>>) -> bool { b.len() == 1 || a.len() == b.len() }
pub open spec fn first<T>(s: Series) -> T { sv::<T>(s)[0]->0 }
pub open spec fn has<T>(s: Series) -> bool { isa::<T>(s) && sv::<T>(s).len() >= 1 && sv::<T>(s)[0] is Some }
pub open spec fn strs(i: Seq<Series>) -> bool { isa::<&Str>(i[0]) && isa::<&Str>(i[1]) }
pub open spec fn A<'a>(i: Seq<Series>) -> Seq<Option<&'a Str>> { sv::<&Str>(i[0]) }
pub open spec fn B<'a>(i: Seq<Series>) -> Seq<Option<&'a Str>> { sv::<&Str>(i[1]) }
"""


def plain(file, path, ty, spec, params=""):
    return f"""//@fn file=str_ext/{file} path={path} ret=r
//@spec
ensures r == {spec}
//@end
"""


def generic1(path, ty, m):
    return f"""//@fn file=str_ext/generic_str_distancer.rs path={path} ret=r types=f64:R,str:Str
//@sig fn {path}<T: StdBatchedStrDistancer>(batched: T, ca: &StringChunked, parallel: bool) -> (r: Series)
//@letty __acc0 Vec<Chunks<{ty}>>
//@spec
ensures sv::<{ty}>(r) == map1(ca@, |s: &Str| batched.{m}(s))
//@closure 0
-> (o: {ty}) ensures o == batched.{m}(s)
//@closure 1
-> (o: {ty}) ensures o == batched.{m}(s)
//@at let.n_threads.0
let ghost f = |s: &Str| batched.{m}(s);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca@.len() as int), f == (|s: &Str| batched.{m}(s)), ca@.len() <= i64::MAX,
  cat(__acc0@) == sub(map1(ca@, f), 0, startof(splits@, ca@.len() as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof {{ assert(cat(__acc0@) =~= sub(map1(ca@, f), 0, 0)); }}
//@at let.out.0
proof {{ assert(out@ =~= map1(s1@, f)); }}
//@at before.push.0
proof {{ step1(__acc0@, __v0, ca@, f, offset as int, len as int); }}
//@at let.out.1
proof {{ assert(out@ =~= map1(ca@, |s: &Str| batched.{m}(s))); }}
//@end
"""


def generic2(path, ty):
    return f"""//@fn file=str_ext/generic_str_distancer.rs path={path} ret=r
//@sig fn {path}<F: Fn(&Str, &Str) -> {ty} + Copy>(func: F, ca1: &StringChunked, ca2: &StringChunked, parallel: bool) -> (r: Series)
//@letty __acc0 Vec<Chunks<{ty}>>
//@spec
requires ca1@.len() == ca2@.len(), forall|x: &Str, y: &Str| func.requires((x, y))
ensures rel2(ca1@, ca2@, sv::<{ty}>(r), |x: &Str, y: &Str, o: {ty}| func.ensures((x, y), o)), sv::<{ty}>(r).len() == ca1@.len()
//@at let.n_threads.0
let ghost q = |x: &Str, y: &Str, o: {ty}| func.ensures((x, y), o);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() == ca2@.len(), ca1@.len() <= i64::MAX, forall|x: &Str, y: &Str| func.requires((x, y)),
  q == (|x: &Str, y: &Str, o: {ty}| func.ensures((x, y), o)),
  cat(__acc0@).len() == startof(splits@, ca1@.len() as int, __i0 as int), rel2(ca1@, ca2@, cat(__acc0@), q),
decreases __n0 - __i0
//@at let.out.0
proof {{ assert(rel2(s1@, s2@, out@, q)); }}
//@at before.push.0
proof {{ step2r(__acc0@, __v0, ca1@, ca2@, q, offset as int, len as int); }}
//@end
"""


def dispatch(file, path, ty, f, f2, m, par=2):
    """literal operand through a batch comparator, two columns through generic_binary_*"""
    conv = f"|x: &Str, y: &Str| {f}(x, y)" + (" as u32" if ty == "u32" else "")
    return f"""//@fn file=str_ext/{file} path={path} ret=r
//@spec
requires inputs.len() >= {par + 1}, strs(inputs@), has::<bool>(inputs@[{par}])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<{ty}>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), {conv})
//@end
"""


DT = {"u32": "UInt32", "R": "Float64", "bool": "Boolean"}


def inline(file, path, ty, f, c1=("s", "s", "r"), c2=("x", "y"), c3=None, par=2, req="", pre="", ids=(0, 1, 2, 3), extra="", creq="", fdef="", unit_args="", inv=""):
    """both operand arrangements written out with their own parallel branch.
    f(x, y): text of the spec of one cell; pre: ghost text after the last parameter is read; creq: precondition of the cell."""
    c3 = c3 or c2
    cr = lambda x, y: (" requires " + creq(x, y)) if creq else ""
    cl = lambda k, x, y: f"//@closure {k}\n-> (o: {ty}){cr(x, y)} ensures o == {f(x, y)}\n"
    g = f"|x: &Str, y: &Str| {f('x', 'y')}"
    gs = f"|x: &Str, y: &Str| {fdef or f('x', 'y')}"
    return f"""//@fn file=str_ext/{file} path={path} ret=r
//@letty __acc0 Vec<Chunks<{ty}>>
//@letty __acc1 Vec<Chunks<{ty}>>
//@spec
requires inputs.len() >= {par + 1}, strs(inputs@), has::<bool>(inputs@[{par}]){req}
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<{ty}>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), {gs})
{cl(ids[0], c1[0], 'r')}{cl(ids[1], c1[1], 'r')}{cl(ids[2], *c2)}{cl(ids[3], *c3)}{extra}//@at let.n_threads.0
let ghost f1 = |x: &Str| {f('x', 'r')};
//@at let.n_threads.1
let ghost f2 = {g};
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| {f('x', 'r')}), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)),{'' if inv else ' batched.r == r,'}{inv % {'one': 'r.b().len() > 0,', 'two': ''} if inv else ''}
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == ({g}), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)),{inv % {'one': '', 'two': ' words(ca2@),'} if inv else ''}
decreases __n1 - __i1
//@at loop0.pre
proof {{ assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }}
//@at loop1.pre
proof {{ assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }}
//@at let.out.0
proof {{ assert(out@ =~= map1(s1@, f1)); }}
//@at before.push.0
proof {{ step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }}
//@at let.out.1
proof {{ assert(out@ =~= map1(ca1@, |x: &Str| {f('x', 'r')})); }}
//@at let.out.2
proof {{ assert(out@ =~= map2(s1@, s2@, f2)); }}
//@at before.push.1
proof {{ step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }}
//@at let.out.3
proof {{ assert(out@ =~= map2(ca1@, ca2@, {g})); }}
{pre}//@end
"""


def dist_unit():
    t = HEAD + "//@include rapidfuzz.inc\n" + PAIRS
    t += """pub open spec fn rel2<S, T, U>(s: Seq<Option<S>>, t: Seq<Option<T>>, o: Seq<Option<U>>, q: spec_fn(S, T, U) -> bool) -> bool {
  forall|i: int| 0 <= i < o.len() ==> (if s[i] is Some && t[i] is Some { (#[trigger] o[i]) is Some && q(s[i]->0, t[i]->0, o[i]->0) } else { o[i] is None }) }
pub proof fn step2r<S, T, U>(acc: Seq<Chunks<U>>, c: Chunks<U>, s: Seq<Option<S>>, t: Seq<Option<T>>, q: spec_fn(S, T, U) -> bool, a: int, n: int)
  requires 0 <= a, 0 <= n, a + n <= s.len(), s.len() == t.len(), cat(acc).len() == a, rel2(s, t, cat(acc), q), rel2(s.subrange(a, a + n), t.subrange(a, a + n), c@, q), c@.len() == n
  ensures cat(acc.push(c)).len() == a + n, rel2(s, t, cat(acc.push(c)), q)
{ assert(acc.push(c).drop_last() =~= acc); let o = cat(acc.push(c));
  assert forall|i: int| 0 <= i < o.len() implies (if s[i] is Some && t[i] is Some { (#[trigger] o[i]) is Some && q(s[i]->0, t[i]->0, o[i]->0) } else { o[i] is None }) by {
    if i < a { assert(o[i] == cat(acc)[i]); } else { assert(o[i] == c@[i - a]); assert(s.subrange(a, a + n)[i - a] == s[i]); assert(t.subrange(a, a + n)[i - a] == t[i]); } } }
pub trait StdBatchedStrDistancer {
  spec fn dist(&self, s: &Str) -> u32;
  spec fn nsim(&self, s: &Str) -> R;
  fn distance(&self, s: &Str) -> (r: u32) ensures r == self.dist(s);
  fn normalized_similarity(&self, s: &Str) -> (r: R) ensures r == self.nsim(s);
}
"""
    for mod, d, s in (("levenshtein", "lev", "levsim"), ("damerau_levenshtein", "dlev", "dlevsim"), ("osa", "osad", "osasim"), ("lcs_seq", "lcs", "lcssim"), ("jaro", None, "jarosim")):
        t += f"""impl<'a> StdBatchedStrDistancer for {mod}::BatchComparator<'a> {{
  open spec fn dist(&self, s: &Str) -> u32 {{ {d + '(s, self.r) as u32' if d else '0u32'} }}
  open spec fn nsim(&self, s: &Str) -> R {{ {s}(s, self.r) }}
"""
        if d:
            t += f"""//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::distance id={mod}.distance vis=none types=f64:R,str:Str
//@end
"""
        else:
            t += "  #[verifier::external_body] fn distance(&self, s: &Str) -> (r: u32) { unimplemented!() }\n"
        t += f"""//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::normalized_similarity id={mod}.similarity vis=none types=f64:R,str:Str
//@end
}}
"""
    t += generic1("generic_batched_distance", "u32", "dist") + generic1("generic_batched_sim", "R", "nsim") + generic2("generic_binary_distance", "u32") + generic2("generic_binary_sim", "R")
    t += plain("levenshtein.rs", "levenshtein", "u32", "lev(s1, s2) as u32")
    t += plain("levenshtein.rs", "levenshtein_within_bound", "bool", "(lev(s1, s2) <= bound)")
    t += plain("levenshtein.rs", "levenshtein_sim", "R", "levsim(s1, s2)")
    t += plain("levenshtein.rs", "d_levenshtein", "u32", "dlev(s1, s2) as u32")
    t += plain("levenshtein.rs", "d_levenshtein_sim", "R", "dlevsim(s1, s2)")
    t += plain("osa.rs", "osa", "u32", "osad(s1, s2) as u32") + plain("osa.rs", "osa_sim", "R", "osasim(s1, s2)")
    t += plain("lcs_seq.rs", "lcs_seq", "u32", "lcs(s1, s2) as u32") + plain("lcs_seq.rs", "lcs_seq_sim", "R", "lcssim(s1, s2)")
    t += plain("jaro.rs", "jaro_sim", "R", "jarosim(s1, s2)") + plain("jaro.rs", "jw_sim", "R", "jw(s1, s2, weight)")
    t += """//@fn file=str_ext/hamming.rs path=hamming_within_bound ret=r
//@closure 0
-> (o: bool) ensures o == op_dist is Some
//@spec
ensures r == (ham(x, y) is Some && ham(x, y)->0 <= bound)
//@end
"""
    for file, path, ty, f, f2, m in (("levenshtein.rs", "pl_levenshtein", "u32", "lev", "levenshtein", "dist"), ("levenshtein.rs", "pl_levenshtein_sim", "R", "levsim", "levenshtein_sim", "nsim"),
                                     ("levenshtein.rs", "pl_d_levenshtein", "u32", "dlev", "d_levenshtein", "dist"), ("levenshtein.rs", "pl_d_levenshtein_sim", "R", "dlevsim", "d_levenshtein_sim", "nsim"),
                                     ("osa.rs", "pl_osa", "u32", "osad", "osa", "dist"), ("osa.rs", "pl_osa_sim", "R", "osasim", "osa_sim", "nsim"),
                                     ("lcs_seq.rs", "pl_lcs_seq", "u32", "lcs", "lcs_seq", "dist"), ("lcs_seq.rs", "pl_lcs_sim", "R", "lcssim", "lcs_seq_sim", "nsim"),
                                     ("jaro.rs", "pl_jaro", "R", "jarosim", "jaro_sim", "nsim")):
        t += dispatch(file, path, ty, f, f2, m)
    t += inline("levenshtein.rs", "pl_levenshtein_filter", "bool", lambda x, y: f"(lev({x}, {y}) <= bound)", fdef="(lev(x, y) <= first::<u32>(inputs@[2]) as usize)", par=3, req=", has::<u32>(inputs@[2])")
    t += inline("hamming.rs", "pl_hamming_filter", "bool", lambda x, y: f"(ham({x}, {y}) is Some && ham({x}, {y})->0 <= bound)", fdef="(ham(x, y) is Some && ham(x, y)->0 <= first::<u32>(inputs@[2]) as usize)", par=3, req=", has::<u32>(inputs@[2])",
                ids=(0, 2, 3, 4), extra="//@closure 1\n-> (o: bool) ensures o == op_dist is Some\n")
    t += inline("hamming.rs", "pl_hamming_padded", "u32", lambda x, y: f"hampad({x}, {y}) as u32")
    t += inline("jaro.rs", "pl_jw", "R", lambda x, y: f"jw({x}, {y}, weight)", fdef="jw(x, y, first::<R>(inputs@[2]))", par=3, req=", has::<R>(inputs@[2])", c2=("s1", "s2"))
    t += inline("fuzz.rs", "pl_fuzz", "R", lambda x, y: f"indelsim({x}, {y})", c3=("w1", "w2"))
    t += open(os.path.join(C, "strdist_hand.txt")).read()
    return t + "}\nfn main(){}\n"


SETS = """pub uninterp spec fn rof(x: real) -> R;
pub axiom fn rof_v(x: real) ensures rof(x)@ == x;
pub open spec fn words(s: Seq<Option<&Str>>) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> s[i]->0.b().len() > 0 }
// the set of n-grams over bytes; a shorter string is its own only gram
pub open spec fn ng(w: &Str, n: int) -> Set<Seq<u8>> { if w.b().len() < n { Set::empty().insert(w.b()) } else { grams(w.b(), n) } }
pub open spec fn n1(x: &Str, n: int) -> real { ng(x, n).len() as real }
pub open spec fn nb(x: &Str, y: &Str, n: int) -> real { ng(x, n).intersect(ng(y, n)).len() as real }
pub open spec fn jaccard(x: &Str, y: &Str, n: int) -> real { nb(x, y, n) / (n1(x, n) + n1(y, n) - nb(x, y, n)) }
pub open spec fn dice(x: &Str, y: &Str, n: int) -> real { 2real * nb(x, y, n) / (n1(x, n) + n1(y, n)) }
pub open spec fn overlapc(x: &Str, y: &Str, n: int) -> real { nb(x, y, n) / rmin(n1(x, n), n1(y, n)) }
pub open spec fn tversky(x: &Str, y: &Str, n: int, a: real, b: real) -> real { nb(x, y, n) / (nb(x, y, n) + a * (n1(x, n) - nb(x, y, n)) + b * (n1(y, n) - nb(x, y, n))) }
// the symmetric ones are symmetric, and Tversky contains the others
proof fn symmetric(x: &Str, y: &Str, n: int) ensures jaccard(x, y, n) == jaccard(y, x, n), dice(x, y, n) == dice(y, x, n), overlapc(x, y, n) == overlapc(y, x, n)
{ assert(ng(x, n).intersect(ng(y, n)) =~= ng(y, n).intersect(ng(x, n))); }
proof fn tversky_one(x: &Str, y: &Str, n: int) ensures tversky(x, y, n, 1real, 1real) == jaccard(x, y, n)
{ assert(nb(x, y, n) + 1real * (n1(x, n) - nb(x, y, n)) + 1real * (n1(y, n) - nb(x, y, n)) == n1(x, n) + n1(y, n) - nb(x, y, n)); }
proof fn sizes(a: Set<Seq<u8>>, b: Set<Seq<u8>>) ensures a.intersect(b).len() <= a.len(), a.intersect(b).len() <= b.len()
{ vstd::set_lib::lemma_len_subset(a.intersect(b), a); vstd::set_lib::lemma_len_subset(a.intersect(b), b); }
proof fn some_gram(w: &Str, n: int) requires w.b().len() > 0, n > 0 ensures ng(w, n).len() > 0
{ if w.b().len() < n { assert(ng(w, n).contains(w.b())); } else { let q = Seq::new((w.b().len() - n + 1) as nat, |i: int| w.b().subrange(i, i + n)); assert(q.contains(q[0])); assert(ng(w, n).contains(q[0])); }
  assert(ng(w, n) != Set::<Seq<u8>>::empty()); if ng(w, n).len() == 0 { assert(ng(w, n) =~= Set::empty()); } }
//@fn file=str_ext/mod.rs path=str_set_sim_helper ret=r parcols= methods=windows=>vx_windows
//@spec
requires ngram > 0
ensures w1.b().len() > 0 && w2.b().len() > 0 ==> r.0 == ng(w1, ngram as int).len() && r.1 == ng(w2, ngram as int).len() && r.2 == ng(w1, ngram as int).intersect(ng(w2, ngram as int)).len()
    && r.2 <= r.0 && r.2 <= r.1 && r.0 > 0 && r.1 > 0 && r.0 <= i32::MAX && r.1 <= i32::MAX
//@at let.s1.0
proof { assert([w1.b()] =~= [w1.b()]); assert(s1.s() =~= ng(w1, ngram as int)); }
//@at let.s2.0
proof { assert(s2.s() =~= ng(w2, ngram as int)); }
//@at let.intersection.0
proof { sizes(s1.s(), s2.s()); some_gram(w1, ngram as int); some_gram(w2, ngram as int); }
//@end
"""


def cell(file, path, f, extra="", nz="", proof=""):
    return f"""//@fn file=str_ext/{file} path={path} ret=r wrap_tail=1
//@spec
requires ngram > 0, w1.b().len() > 0, w2.b().len() > 0{extra}
ensures r == {f}
{proof}//@at fn.end
proof {{ rof_v({f[4:-1]}); r_ext(__ret, {f}); }}
//@end
"""


def sets_unit():
    t = HEAD + "//@include hashset.inc\n" + PAIRS + SETS
    t += cell("str_jaccard.rs", "str_jaccard", "rof(jaccard(w1, w2, ngram as int))")
    t += cell("sorensen_dice.rs", "sorensen_dice", "rof(dice(w1, w2, ngram as int))")
    t += cell("overlap.rs", "overlap_coeff", "rof(overlapc(w1, w2, ngram as int))")
    t += cell("tversky.rs", "tversky_sim", "rof(tversky(w1, w2, ngram as int, alpha@, beta@))", ", alpha@ > 0real, beta@ > 0real",
              proof="""//@at let.s2ms1.0
proof { let (i, a, b) = (intersect as real, s1ms2@, s2ms1@); assert(alpha@ * a >= 0real) by(nonlinear_arith) requires alpha@ > 0real, a >= 0real; assert(beta@ * b >= 0real) by(nonlinear_arith) requires beta@ > 0real, b >= 0real;
  if intersect == 0 { assert(a > 0real); assert(alpha@ * a > 0real) by(nonlinear_arith) requires alpha@ > 0real, a > 0real; } }
""")
    req = ", has::<u32>(inputs@[2]), first::<u32>(inputs@[2]) > 0, words(A(inputs@)), words(B(inputs@))"
    for file, path, f in (("str_jaccard.rs", "pl_str_jaccard", "jaccard"), ("sorensen_dice.rs", "pl_sorensen_dice", "dice"), ("overlap.rs", "pl_overlap_coeff", "overlapc")):
        t += inline(file, path, "R", lambda x, y: f"rof({f}({x}, {y}, ngram as int))", fdef=f"rof({f}(x, y, first::<u32>(inputs@[2]) as int))", par=3, req=req,
                    creq=lambda x, y: f"ngram > 0, {x}.b().len() > 0, {y}.b().len() > 0", inv=" words(ca1@), ngram > 0, %(one)s%(two)s")
    f = "tversky"
    t += inline("tversky.rs", "pl_tversky_sim", "R", lambda x, y: f"rof(tversky({x}, {y}, ngram as int, alpha@, beta@))", fdef="rof(tversky(x, y, first::<u32>(inputs@[2]) as int, first::<R>(inputs@[3])@, first::<R>(inputs@[4])@))", par=5,
                req=req + ", has::<R>(inputs@[3]), has::<R>(inputs@[4]), first::<R>(inputs@[3])@ > 0real, first::<R>(inputs@[4])@ > 0real",
                creq=lambda x, y: f"ngram > 0, {x}.b().len() > 0, {y}.b().len() > 0, alpha@ > 0real, beta@ > 0real", inv=" words(ca1@), ngram > 0, alpha@ > 0real, beta@ > 0real, %(one)s%(two)s")
    return t + "}\nfn main(){}\n"


open(os.path.join(C, "strsets.vrs"), "w").write(sets_unit())
open(os.path.join(C, "strdist.vrs"), "w").write(dist_unit())
