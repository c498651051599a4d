// written by tools/gen_str.py
//@include prelude_real.rs
//@default types=T:R,f64:R,str:Str parcols=1 strip=HashSet
//@include split.inc
//@include cols.rs
//@include rapidfuzz.inc
verus!{
// the second column is a literal when it has one row
pub open spec fn pairs<U>(a: Seq<Option<&Str>>, b: Seq<Option<&Str>>, f: spec_fn(&Str, &Str) -> U) -> Seq<Option<U>> {
  if b.len() == 1 { match b[0] { None => nulls::<U>(a.len()), Some(y) => map1(a, |x: &Str| f(x, y)) } } else { map2(a, b, f) } }
pub open spec fn shapes_ok(a: Seq<Option<&Str>>, b: Seq<Option<&Str>>) -> bool { b.len() == 1 || a.len() == b.len() }
pub open spec fn first<T>(s: Series) -> T { sv::<T>(s)[0]->0 }
pub open spec fn has<T>(s: Series) -> bool { isa::<T>(s) && sv::<T>(s).len() >= 1 && sv::<T>(s)[0] is Some }
pub open spec fn strs(i: Seq<Series>) -> bool { isa::<&Str>(i[0]) && isa::<&Str>(i[1]) }
pub open spec fn A<'a>(i: Seq<Series>) -> Seq<Option<&'a Str>> { sv::<&Str>(i[0]) }
pub open spec fn B<'a>(i: Seq<Series>) -> Seq<Option<&'a Str>> { sv::<&Str>(i[1]) }
pub open spec fn rel2<S, T, U>(s: Seq<Option<S>>, t: Seq<Option<T>>, o: Seq<Option<U>>, q: spec_fn(S, T, U) -> bool) -> bool {
  forall|i: int| 0 <= i < o.len() ==> (if s[i] is Some && t[i] is Some { (#[trigger] o[i]) is Some && q(s[i]->0, t[i]->0, o[i]->0) } else { o[i] is None }) }
pub proof fn step2r<S, T, U>(acc: Seq<Chunks<U>>, c: Chunks<U>, s: Seq<Option<S>>, t: Seq<Option<T>>, q: spec_fn(S, T, U) -> bool, a: int, n: int)
  requires 0 <= a, 0 <= n, a + n <= s.len(), s.len() == t.len(), cat(acc).len() == a, rel2(s, t, cat(acc), q), rel2(s.subrange(a, a + n), t.subrange(a, a + n), c@, q), c@.len() == n
  ensures cat(acc.push(c)).len() == a + n, rel2(s, t, cat(acc.push(c)), q)
{ assert(acc.push(c).drop_last() =~= acc); let o = cat(acc.push(c));
  assert forall|i: int| 0 <= i < o.len() implies (if s[i] is Some && t[i] is Some { (#[trigger] o[i]) is Some && q(s[i]->0, t[i]->0, o[i]->0) } else { o[i] is None }) by {
    if i < a { assert(o[i] == cat(acc)[i]); } else { assert(o[i] == c@[i - a]); assert(s.subrange(a, a + n)[i - a] == s[i]); assert(t.subrange(a, a + n)[i - a] == t[i]); } } }
pub trait StdBatchedStrDistancer {
  spec fn dist(&self, s: &Str) -> u32;
  spec fn nsim(&self, s: &Str) -> R;
  fn distance(&self, s: &Str) -> (r: u32) ensures r == self.dist(s);
  fn normalized_similarity(&self, s: &Str) -> (r: R) ensures r == self.nsim(s);
}
impl<'a> StdBatchedStrDistancer for levenshtein::BatchComparator<'a> {
  open spec fn dist(&self, s: &Str) -> u32 { lev(s, self.r) as u32 }
  open spec fn nsim(&self, s: &Str) -> R { levsim(s, self.r) }
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::distance id=levenshtein.distance vis=none types=f64:R,str:Str
//@end
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::normalized_similarity id=levenshtein.similarity vis=none types=f64:R,str:Str
//@end
}
impl<'a> StdBatchedStrDistancer for damerau_levenshtein::BatchComparator<'a> {
  open spec fn dist(&self, s: &Str) -> u32 { dlev(s, self.r) as u32 }
  open spec fn nsim(&self, s: &Str) -> R { dlevsim(s, self.r) }
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::distance id=damerau_levenshtein.distance vis=none types=f64:R,str:Str
//@end
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::normalized_similarity id=damerau_levenshtein.similarity vis=none types=f64:R,str:Str
//@end
}
impl<'a> StdBatchedStrDistancer for osa::BatchComparator<'a> {
  open spec fn dist(&self, s: &Str) -> u32 { osad(s, self.r) as u32 }
  open spec fn nsim(&self, s: &Str) -> R { osasim(s, self.r) }
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::distance id=osa.distance vis=none types=f64:R,str:Str
//@end
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::normalized_similarity id=osa.similarity vis=none types=f64:R,str:Str
//@end
}
impl<'a> StdBatchedStrDistancer for lcs_seq::BatchComparator<'a> {
  open spec fn dist(&self, s: &Str) -> u32 { lcs(s, self.r) as u32 }
  open spec fn nsim(&self, s: &Str) -> R { lcssim(s, self.r) }
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::distance id=lcs_seq.distance vis=none types=f64:R,str:Str
//@end
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::normalized_similarity id=lcs_seq.similarity vis=none types=f64:R,str:Str
//@end
}
impl<'a> StdBatchedStrDistancer for jaro::BatchComparator<'a> {
  open spec fn dist(&self, s: &Str) -> u32 { 0u32 }
  open spec fn nsim(&self, s: &Str) -> R { jarosim(s, self.r) }
  #[verifier::external_body] fn distance(&self, s: &Str) -> (r: u32) { unimplemented!() }
//@fn file=str_ext/generic_str_distancer.rs path=StdBatchedStrDistanceImpl!::normalized_similarity id=jaro.similarity vis=none types=f64:R,str:Str
//@end
}
//@fn file=str_ext/generic_str_distancer.rs path=generic_batched_distance ret=r types=f64:R,str:Str
//@sig fn generic_batched_distance<T: StdBatchedStrDistancer>(batched: T, ca: &StringChunked, parallel: bool) -> (r: Series)
//@letty __acc0 Vec<Chunks<u32>>
//@spec
ensures sv::<u32>(r) == map1(ca@, |s: &Str| batched.dist(s))
//@closure 0
-> (o: u32) ensures o == batched.dist(s)
//@closure 1
-> (o: u32) ensures o == batched.dist(s)
//@at let.n_threads.0
let ghost f = |s: &Str| batched.dist(s);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca@.len() as int), f == (|s: &Str| batched.dist(s)), ca@.len() <= i64::MAX,
  cat(__acc0@) == sub(map1(ca@, f), 0, startof(splits@, ca@.len() as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca@, f), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca@, f, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca@, |s: &Str| batched.dist(s))); }
//@end
//@fn file=str_ext/generic_str_distancer.rs path=generic_batched_sim ret=r types=f64:R,str:Str
//@sig fn generic_batched_sim<T: StdBatchedStrDistancer>(batched: T, ca: &StringChunked, parallel: bool) -> (r: Series)
//@letty __acc0 Vec<Chunks<R>>
//@spec
ensures sv::<R>(r) == map1(ca@, |s: &Str| batched.nsim(s))
//@closure 0
-> (o: R) ensures o == batched.nsim(s)
//@closure 1
-> (o: R) ensures o == batched.nsim(s)
//@at let.n_threads.0
let ghost f = |s: &Str| batched.nsim(s);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca@.len() as int), f == (|s: &Str| batched.nsim(s)), ca@.len() <= i64::MAX,
  cat(__acc0@) == sub(map1(ca@, f), 0, startof(splits@, ca@.len() as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca@, f), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca@, f, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca@, |s: &Str| batched.nsim(s))); }
//@end
//@fn file=str_ext/generic_str_distancer.rs path=generic_binary_distance ret=r
//@sig fn generic_binary_distance<F: Fn(&Str, &Str) -> u32 + Copy>(func: F, ca1: &StringChunked, ca2: &StringChunked, parallel: bool) -> (r: Series)
//@letty __acc0 Vec<Chunks<u32>>
//@spec
requires ca1@.len() == ca2@.len(), forall|x: &Str, y: &Str| func.requires((x, y))
ensures rel2(ca1@, ca2@, sv::<u32>(r), |x: &Str, y: &Str, o: u32| func.ensures((x, y), o)), sv::<u32>(r).len() == ca1@.len()
//@at let.n_threads.0
let ghost q = |x: &Str, y: &Str, o: u32| func.ensures((x, y), o);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() == ca2@.len(), ca1@.len() <= i64::MAX, forall|x: &Str, y: &Str| func.requires((x, y)),
  q == (|x: &Str, y: &Str, o: u32| func.ensures((x, y), o)),
  cat(__acc0@).len() == startof(splits@, ca1@.len() as int, __i0 as int), rel2(ca1@, ca2@, cat(__acc0@), q),
decreases __n0 - __i0
//@at let.out.0
proof { assert(rel2(s1@, s2@, out@, q)); }
//@at before.push.0
proof { step2r(__acc0@, __v0, ca1@, ca2@, q, offset as int, len as int); }
//@end
//@fn file=str_ext/generic_str_distancer.rs path=generic_binary_sim ret=r
//@sig fn generic_binary_sim<F: Fn(&Str, &Str) -> R + Copy>(func: F, ca1: &StringChunked, ca2: &StringChunked, parallel: bool) -> (r: Series)
//@letty __acc0 Vec<Chunks<R>>
//@spec
requires ca1@.len() == ca2@.len(), forall|x: &Str, y: &Str| func.requires((x, y))
ensures rel2(ca1@, ca2@, sv::<R>(r), |x: &Str, y: &Str, o: R| func.ensures((x, y), o)), sv::<R>(r).len() == ca1@.len()
//@at let.n_threads.0
let ghost q = |x: &Str, y: &Str, o: R| func.ensures((x, y), o);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() == ca2@.len(), ca1@.len() <= i64::MAX, forall|x: &Str, y: &Str| func.requires((x, y)),
  q == (|x: &Str, y: &Str, o: R| func.ensures((x, y), o)),
  cat(__acc0@).len() == startof(splits@, ca1@.len() as int, __i0 as int), rel2(ca1@, ca2@, cat(__acc0@), q),
decreases __n0 - __i0
//@at let.out.0
proof { assert(rel2(s1@, s2@, out@, q)); }
//@at before.push.0
proof { step2r(__acc0@, __v0, ca1@, ca2@, q, offset as int, len as int); }
//@end
//@fn file=str_ext/levenshtein.rs path=levenshtein ret=r
//@spec
ensures r == lev(s1, s2) as u32
//@end
//@fn file=str_ext/levenshtein.rs path=levenshtein_within_bound ret=r
//@spec
ensures r == (lev(s1, s2) <= bound)
//@end
//@fn file=str_ext/levenshtein.rs path=levenshtein_sim ret=r
//@spec
ensures r == levsim(s1, s2)
//@end
//@fn file=str_ext/levenshtein.rs path=d_levenshtein ret=r
//@spec
ensures r == dlev(s1, s2) as u32
//@end
//@fn file=str_ext/levenshtein.rs path=d_levenshtein_sim ret=r
//@spec
ensures r == dlevsim(s1, s2)
//@end
//@fn file=str_ext/osa.rs path=osa ret=r
//@spec
ensures r == osad(s1, s2) as u32
//@end
//@fn file=str_ext/osa.rs path=osa_sim ret=r
//@spec
ensures r == osasim(s1, s2)
//@end
//@fn file=str_ext/lcs_seq.rs path=lcs_seq ret=r
//@spec
ensures r == lcs(s1, s2) as u32
//@end
//@fn file=str_ext/lcs_seq.rs path=lcs_seq_sim ret=r
//@spec
ensures r == lcssim(s1, s2)
//@end
//@fn file=str_ext/jaro.rs path=jaro_sim ret=r
//@spec
ensures r == jarosim(s1, s2)
//@end
//@fn file=str_ext/jaro.rs path=jw_sim ret=r
//@spec
ensures r == jw(s1, s2, weight)
//@end
//@fn file=str_ext/hamming.rs path=hamming_within_bound ret=r
//@closure 0
-> (o: bool) ensures o == op_dist is Some
//@spec
ensures r == (ham(x, y) is Some && ham(x, y)->0 <= bound)
//@end
//@fn file=str_ext/levenshtein.rs path=pl_levenshtein ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<u32>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| lev(x, y) as u32)
//@end
//@fn file=str_ext/levenshtein.rs path=pl_levenshtein_sim ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| levsim(x, y))
//@end
//@fn file=str_ext/levenshtein.rs path=pl_d_levenshtein ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<u32>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| dlev(x, y) as u32)
//@end
//@fn file=str_ext/levenshtein.rs path=pl_d_levenshtein_sim ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| dlevsim(x, y))
//@end
//@fn file=str_ext/osa.rs path=pl_osa ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<u32>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| osad(x, y) as u32)
//@end
//@fn file=str_ext/osa.rs path=pl_osa_sim ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| osasim(x, y))
//@end
//@fn file=str_ext/lcs_seq.rs path=pl_lcs_seq ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<u32>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| lcs(x, y) as u32)
//@end
//@fn file=str_ext/lcs_seq.rs path=pl_lcs_sim ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| lcssim(x, y))
//@end
//@fn file=str_ext/jaro.rs path=pl_jaro ret=r
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| jarosim(x, y))
//@end
//@fn file=str_ext/levenshtein.rs path=pl_levenshtein_filter ret=r
//@letty __acc0 Vec<Chunks<bool>>
//@letty __acc1 Vec<Chunks<bool>>
//@spec
requires inputs.len() >= 4, strs(inputs@), has::<bool>(inputs@[3]), has::<u32>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<bool>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| (lev(x, y) <= first::<u32>(inputs@[2]) as usize))
//@closure 0
-> (o: bool) ensures o == (lev(s, r) <= bound)
//@closure 1
-> (o: bool) ensures o == (lev(s, r) <= bound)
//@closure 2
-> (o: bool) ensures o == (lev(x, y) <= bound)
//@closure 3
-> (o: bool) ensures o == (lev(x, y) <= bound)
//@at let.n_threads.0
let ghost f1 = |x: &Str| (lev(x, r) <= bound);
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| (lev(x, y) <= bound);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| (lev(x, r) <= bound)), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), batched.r == r,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| (lev(x, y) <= bound)), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| (lev(x, r) <= bound))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| (lev(x, y) <= bound))); }
//@end
//@fn file=str_ext/hamming.rs path=pl_hamming_filter ret=r
//@letty __acc0 Vec<Chunks<bool>>
//@letty __acc1 Vec<Chunks<bool>>
//@spec
requires inputs.len() >= 4, strs(inputs@), has::<bool>(inputs@[3]), has::<u32>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<bool>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| (ham(x, y) is Some && ham(x, y)->0 <= first::<u32>(inputs@[2]) as usize))
//@closure 0
-> (o: bool) ensures o == (ham(s, r) is Some && ham(s, r)->0 <= bound)
//@closure 2
-> (o: bool) ensures o == (ham(s, r) is Some && ham(s, r)->0 <= bound)
//@closure 3
-> (o: bool) ensures o == (ham(x, y) is Some && ham(x, y)->0 <= bound)
//@closure 4
-> (o: bool) ensures o == (ham(x, y) is Some && ham(x, y)->0 <= bound)
//@closure 1
-> (o: bool) ensures o == op_dist is Some
//@at let.n_threads.0
let ghost f1 = |x: &Str| (ham(x, r) is Some && ham(x, r)->0 <= bound);
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| (ham(x, y) is Some && ham(x, y)->0 <= bound);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| (ham(x, r) is Some && ham(x, r)->0 <= bound)), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), batched.r == r,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| (ham(x, y) is Some && ham(x, y)->0 <= bound)), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| (ham(x, r) is Some && ham(x, r)->0 <= bound))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| (ham(x, y) is Some && ham(x, y)->0 <= bound))); }
//@end
//@fn file=str_ext/hamming.rs path=pl_hamming_padded ret=r
//@letty __acc0 Vec<Chunks<u32>>
//@letty __acc1 Vec<Chunks<u32>>
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<u32>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| hampad(x, y) as u32)
//@closure 0
-> (o: u32) ensures o == hampad(s, r) as u32
//@closure 1
-> (o: u32) ensures o == hampad(s, r) as u32
//@closure 2
-> (o: u32) ensures o == hampad(x, y) as u32
//@closure 3
-> (o: u32) ensures o == hampad(x, y) as u32
//@at let.n_threads.0
let ghost f1 = |x: &Str| hampad(x, r) as u32;
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| hampad(x, y) as u32;
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| hampad(x, r) as u32), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), batched.r == r,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| hampad(x, y) as u32), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| hampad(x, r) as u32)); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| hampad(x, y) as u32)); }
//@end
//@fn file=str_ext/jaro.rs path=pl_jw ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Chunks<R>>
//@spec
requires inputs.len() >= 4, strs(inputs@), has::<bool>(inputs@[3]), has::<R>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| jw(x, y, first::<R>(inputs@[2])))
//@closure 0
-> (o: R) ensures o == jw(s, r, weight)
//@closure 1
-> (o: R) ensures o == jw(s, r, weight)
//@closure 2
-> (o: R) ensures o == jw(s1, s2, weight)
//@closure 3
-> (o: R) ensures o == jw(s1, s2, weight)
//@at let.n_threads.0
let ghost f1 = |x: &Str| jw(x, r, weight);
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| jw(x, y, weight);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| jw(x, r, weight)), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), batched.r == r,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| jw(x, y, weight)), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| jw(x, r, weight))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| jw(x, y, weight))); }
//@end
//@fn file=str_ext/fuzz.rs path=pl_fuzz ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Chunks<R>>
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| indelsim(x, y))
//@closure 0
-> (o: R) ensures o == indelsim(s, r)
//@closure 1
-> (o: R) ensures o == indelsim(s, r)
//@closure 2
-> (o: R) ensures o == indelsim(x, y)
//@closure 3
-> (o: R) ensures o == indelsim(w1, w2)
//@at let.n_threads.0
let ghost f1 = |x: &Str| indelsim(x, r);
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| indelsim(x, y);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| indelsim(x, r)), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), batched.r == r,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| indelsim(x, y)), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| indelsim(x, r))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| indelsim(x, y))); }
//@end
pub open spec fn mapo1<S, U>(s: Seq<Option<S>>, f: spec_fn(S) -> Option<U>) -> Seq<Option<U>> { Seq::new(s.len(), |i: int| match s[i] { Some(x) => f(x), None => None }) }
pub open spec fn mapo2<S, T, U>(s: Seq<Option<S>>, t: Seq<Option<T>>, f: spec_fn(S, T) -> Option<U>) -> Seq<Option<U>> { Seq::new(s.len(), |i: int| if s[i] is Some && t[i] is Some { f(s[i]->0, t[i]->0) } else { None }) }
pub proof fn step1o<S, U>(acc: Seq<Chunks<U>>, c: Chunks<U>, s: Seq<Option<S>>, f: spec_fn(S) -> Option<U>, a: int, n: int)
  requires 0 <= a, 0 <= n, a + n <= s.len(), cat(acc) == sub(mapo1(s, f), 0, a), c@ == mapo1(s.subrange(a, a + n), f)
  ensures cat(acc.push(c)) == sub(mapo1(s, f), 0, a + n)
{ assert(acc.push(c).drop_last() =~= acc); assert(cat(acc.push(c)) =~= sub(mapo1(s, f), 0, a + n)); }
pub proof fn step2o<S, T, U>(acc: Seq<Chunks<U>>, c: Chunks<U>, s: Seq<Option<S>>, t: Seq<Option<T>>, f: spec_fn(S, T) -> Option<U>, a: int, n: int)
  requires 0 <= a, 0 <= n, a + n <= s.len(), s.len() == t.len(), cat(acc) == sub(mapo2(s, t, f), 0, a), c@ == mapo2(s.subrange(a, a + n), t.subrange(a, a + n), f)
  ensures cat(acc.push(c)) == sub(mapo2(s, t, f), 0, a + n)
{ assert(acc.push(c).drop_last() =~= acc); assert(cat(acc.push(c)) =~= sub(mapo2(s, t, f), 0, a + n)); }
pub open spec fn hamcell(x: &Str, y: &Str) -> Option<u32> { match ham(x, y) { Some(d) => Some(d as u32), None => None } }
//@fn file=str_ext/hamming.rs path=pl_hamming ret=r opts=s1,s2,ca1,ca2
//@letty __acc0 Vec<Chunks<u32>>
//@letty __acc1 Vec<Option<u32>>
//@letty __acc2 Vec<Option<u32>>
//@letty __acc3 Vec<Chunks<u32>>
//@letty __acc4 Vec<Option<u32>>
//@letty __acc5 Vec<Option<u32>>
//@spec
requires inputs.len() >= 3, strs(inputs@), has::<bool>(inputs@[2])
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<u32>(r->Ok_0) =~= (if B(inputs@).len() == 1 { match B(inputs@)[0] { None => nulls::<u32>(A(inputs@).len()), Some(y) => mapo1(A(inputs@), |x: &Str| hamcell(x, y)) } }
  else { mapo2(A(inputs@), B(inputs@), |x: &Str, y: &Str| hamcell(x, y)) })
//@at let.n_threads.0
let ghost f1 = |x: &Str| hamcell(x, r);
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| hamcell(x, y);
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, batched.r == r, f1 == (|x: &Str| hamcell(x, r)),
  cat(__acc0@) == sub(mapo1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == __s1.len(), __s1@ == s1@, batched.r == r, f1 == (|x: &Str| hamcell(x, r)), __acc1@ == sub(mapo1(s1@, f1), 0, __i1 as int),
decreases __n1 - __i1
//@loop 2
invariant __i2 <= __n2, __n2 == __s2.len(), __s2@ == ca1@, batched.r == r, __acc2@ == sub(mapo1(ca1@, |x: &Str| hamcell(x, r)), 0, __i2 as int),
decreases __n2 - __i2
//@loop 3
invariant __i3 <= __n3, __n3 == splits.len(), __acc3.len() == __i3, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(), f2 == (|x: &Str, y: &Str| hamcell(x, y)),
  cat(__acc3@) == sub(mapo2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i3 as int)),
decreases __n3 - __i3
//@loop 4
invariant __i4 <= __n4, __n4 == __s3.len(), __s3@ == s1@, __s4@ == s2@, s1@.len() == s2@.len(), f2 == (|x: &Str, y: &Str| hamcell(x, y)), __acc4@ == sub(mapo2(s1@, s2@, f2), 0, __i4 as int),
decreases __n4 - __i4
//@loop 5
invariant __i5 <= __n5, __n5 == __s5.len(), __s5@ == ca1@, __s6@ == ca2@, ca1@.len() == ca2@.len(), __acc5@ == sub(mapo2(ca1@, ca2@, |x: &Str, y: &Str| hamcell(x, y)), 0, __i5 as int),
decreases __n5 - __i5
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(mapo1(ca1@, f1), 0, 0)); }
//@at loop3.pre
proof { assert(cat(__acc3@) =~= sub(mapo2(ca1@, ca2@, f2), 0, 0)); }
//@at loop1.pre
proof { assert(__acc1@ =~= sub(mapo1(s1@, f1), 0, 0)); }
//@at loop2.pre
proof { assert(__acc2@ =~= sub(mapo1(ca1@, |x: &Str| hamcell(x, r)), 0, 0)); }
//@at loop4.pre
proof { assert(__acc4@ =~= sub(mapo2(s1@, s2@, f2), 0, 0)); }
//@at loop5.pre
proof { assert(__acc5@ =~= sub(mapo2(ca1@, ca2@, |x: &Str, y: &Str| hamcell(x, y)), 0, 0)); }
//@at loop1.end
proof { assert(__acc1@ =~= sub(mapo1(s1@, f1), 0, __i1 as int)); }
//@at loop2.end
proof { assert(__acc2@ =~= sub(mapo1(ca1@, |x: &Str| hamcell(x, r)), 0, __i2 as int)); }
//@at loop4.end
proof { assert(__acc4@ =~= sub(mapo2(s1@, s2@, f2), 0, __i4 as int)); }
//@at loop5.end
proof { assert(__acc5@ =~= sub(mapo2(ca1@, ca2@, |x: &Str, y: &Str| hamcell(x, y)), 0, __i5 as int)); }
//@at let.out.0
proof { assert(out@ =~= mapo1(s1@, f1)); }
//@at let.out.1
proof { assert(out@ =~= mapo1(ca1@, |x: &Str| hamcell(x, r))); }
//@at let.out.2
proof { assert(out@ =~= mapo2(s1@, s2@, f2)); }
//@at let.out.3
proof { assert(out@ =~= mapo2(ca1@, ca2@, |x: &Str, y: &Str| hamcell(x, y))); }
//@at before.push.1
proof { step1o(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at before.push.4
proof { step2o(__acc3@, __v3, ca1@, ca2@, f2, offset as int, len as int); }
//@end
// nearest words: a distance, where there is one, within the cutoff
pub open spec fn reach(d: Option<usize>, cut: usize) -> bool { d is Some && d->0 <= cut }
pub open spec fn nolower(a: Option<usize>, b: Option<usize>) -> bool { b is Some ==> a is Some && a->0 <= b->0 }
pub open spec fn levo(a: &Str, b: &Str) -> Option<usize> { Some(lev(a, b)) }
pub open spec fn best_so_far(best: usize, cut: usize, cutoff: usize, near: Option<&Str>, seen: Set<&Str>, d: spec_fn(&Str) -> Option<usize>) -> bool {
  match near {
    None => best == usize::MAX && cut == cutoff && forall|x: &Str| #[trigger] seen.contains(x) ==> !reach(d(x), cutoff),
    Some(w) => seen.contains(w) && d(w) == Some(best) && cut == best && best <= cutoff && forall|x: &Str| #[trigger] seen.contains(x) ==> nolower(Some(best), d(x)) } }
pub axiom fn lev_small(a: &Str, b: &Str) ensures lev(a, b) < usize::MAX;
pub axiom fn ham_small(a: &Str, b: &Str) ensures ham(a, b) is Some ==> ham(a, b)->0 < usize::MAX;
//@fn file=str_ext/nearest_str.rs path=levenshtein_nearest ret=r types=f64:R,str:Str,String:Str
//@spec
ensures match r {
  None => forall|x: &Str| #[trigger] s@.contains(Some(x)) ==> !reach(levo(x, &word), cutoff),
  Some(w) => s@.contains(Some(w)) && reach(levo(w, &word), cutoff) && forall|x: &Str| #[trigger] s@.contains(Some(x)) ==> nolower(levo(w, &word), levo(x, &word)) }
//@at let.nearest_str.0
let ghost mut seen: Set<&Str> = Set::empty();
//@at let.batched.0
let ghost wd = &word;
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), forall|x: &Str| s@.contains(Some(x)) <==> inside(__s1@, x, __n0 as int),
  batched.r == wd, wd == &word, best_so_far(best, actual_cutoff.cut, cutoff, nearest_str, seen, |x: &Str| levo(x, wd)), forall|x: &Str| #[trigger] seen.contains(x) ==> s@.contains(Some(x)),
  forall|x: &Str| #[trigger] inside(__s1@, x, __i0 as int) ==> seen.contains(x),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == __s2.len(), __i0 <= __n0, __n0 == __s1.len(), 1 <= __i0, arr == &__s1@[__i0 - 1], forall|x: &Str| s@.contains(Some(x)) <==> inside(__s1@, x, __n0 as int),
  forall|i: int| 0 <= i < arr@.len() && (#[trigger] arr@[i]) is Some ==> __s2@.contains(arr@[i]->0), forall|j: int| 0 <= j < __s2@.len() ==> arr@.contains(Some(#[trigger] __s2@[j])),
  batched.r == wd, wd == &word, best_so_far(best, actual_cutoff.cut, cutoff, nearest_str, seen, |x: &Str| levo(x, wd)), forall|x: &Str| #[trigger] seen.contains(x) ==> s@.contains(Some(x)),
  forall|x: &Str| #[trigger] inside(__s1@, x, __i0 - 1) ==> seen.contains(x), forall|j: int| 0 <= j < __i1 ==> seen.contains(#[trigger] __s2@[j]),
decreases __n1 - __i1
//@at let.w.0
proof { lev_small(w, wd); assert(arr@.contains(Some(w))); assert(inside(__s1@, w, __n0 as int)); seen = seen.insert(w); assert(inside(__s1@, w, __n0 as int) ==> s@.contains(Some(w))); }
//@at loop0.post
proof { assert forall|x: &Str| #[trigger] s@.contains(Some(x)) implies seen.contains(x) by { assert(inside(__s1@, x, __n0 as int)); } }
//@at loop1.post
proof { assert forall|x: &Str| #[trigger] inside(__s1@, x, __i0 as int) implies seen.contains(x) by {
  let c = choose|c: int| 0 <= c < __i0 && (#[trigger] __s1@[c])@.contains(Some(x)); if c < __i0 - 1 { assert(inside(__s1@, x, __i0 - 1)); } else { assert(arr@.contains(Some(x))); let i = choose|i: int| 0 <= i < arr@.len() && arr@[i] == Some(x); assert(arr@[i] is Some); assert(__s2@.contains(x)); } } }
//@end
//@fn file=str_ext/nearest_str.rs path=hamming_nearest ret=r types=f64:R,str:Str,String:Str
//@spec
ensures match r {
  None => forall|x: &Str| #[trigger] s@.contains(Some(x)) ==> !reach(ham(x, &word), cutoff),
  Some(w) => s@.contains(Some(w)) && reach(ham(w, &word), cutoff) && forall|x: &Str| #[trigger] s@.contains(Some(x)) ==> nolower(ham(w, &word), ham(x, &word)) }
//@at let.nearest_str.0
let ghost mut seen: Set<&Str> = Set::empty();
//@at let.batched.0
let ghost wd = &word;
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), forall|x: &Str| s@.contains(Some(x)) <==> inside(__s1@, x, __n0 as int),
  batched.r == wd, wd == &word, best_so_far(best, actual_cutoff.cut, cutoff, nearest_str, seen, |x: &Str| ham(x, wd)), forall|x: &Str| #[trigger] seen.contains(x) ==> s@.contains(Some(x)),
  forall|x: &Str| #[trigger] inside(__s1@, x, __i0 as int) ==> seen.contains(x),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == __s2.len(), __i0 <= __n0, __n0 == __s1.len(), 1 <= __i0, arr == &__s1@[__i0 - 1], forall|x: &Str| s@.contains(Some(x)) <==> inside(__s1@, x, __n0 as int),
  forall|i: int| 0 <= i < arr@.len() && (#[trigger] arr@[i]) is Some ==> __s2@.contains(arr@[i]->0), forall|j: int| 0 <= j < __s2@.len() ==> arr@.contains(Some(#[trigger] __s2@[j])),
  batched.r == wd, wd == &word, best_so_far(best, actual_cutoff.cut, cutoff, nearest_str, seen, |x: &Str| ham(x, wd)), forall|x: &Str| #[trigger] seen.contains(x) ==> s@.contains(Some(x)),
  forall|x: &Str| #[trigger] inside(__s1@, x, __i0 - 1) ==> seen.contains(x), forall|j: int| 0 <= j < __i1 ==> seen.contains(#[trigger] __s2@[j]),
decreases __n1 - __i1
//@at let.w.0
proof { ham_small(w, wd); assert(arr@.contains(Some(w))); assert(inside(__s1@, w, __n0 as int)); seen = seen.insert(w); assert(inside(__s1@, w, __n0 as int) ==> s@.contains(Some(w))); }
//@at loop0.post
proof { assert forall|x: &Str| #[trigger] s@.contains(Some(x)) implies seen.contains(x) by { assert(inside(__s1@, x, __n0 as int)); } }
//@at loop1.post
proof { assert forall|x: &Str| #[trigger] inside(__s1@, x, __i0 as int) implies seen.contains(x) by {
  let c = choose|c: int| 0 <= c < __i0 && (#[trigger] __s1@[c])@.contains(Some(x)); if c < __i0 - 1 { assert(inside(__s1@, x, __i0 - 1)); } else { assert(arr@.contains(Some(x))); let i = choose|i: int| 0 <= i < arr@.len() && arr@[i] == Some(x); assert(arr@[i] is Some); assert(__s2@.contains(x)); } } }
//@end
}
fn main(){}
