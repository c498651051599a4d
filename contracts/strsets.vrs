// written by tools/gen_str.py
//@include prelude_real.rs
//@default types=T:R,f64:R,str:Str parcols=1 strip=HashSet
//@include split.inc
//@include cols.rs
//@include hashset.inc
verus!{
// the second column is a literal when it has one row
pub open spec fn pairs<U>(a: Seq<Option<&Str>>, b: Seq<Option<&Str>>, f: spec_fn(&Str, &Str) -> U) -> Seq<Option<U>> {
  if b.len() == 1 { match b[0] { None => nulls::<U>(a.len()), Some(y) => map1(a, |x: &Str| f(x, y)) } } else { map2(a, b, f) } }
pub open spec fn shapes_ok(a: Seq<Option<&Str>>, b: Seq<Option<&Str>>) -> bool { b.len() == 1 || a.len() == b.len() }
pub open spec fn first<T>(s: Series) -> T { sv::<T>(s)[0]->0 }
pub open spec fn has<T>(s: Series) -> bool { isa::<T>(s) && sv::<T>(s).len() >= 1 && sv::<T>(s)[0] is Some }
pub open spec fn strs(i: Seq<Series>) -> bool { isa::<&Str>(i[0]) && isa::<&Str>(i[1]) }
pub open spec fn A<'a>(i: Seq<Series>) -> Seq<Option<&'a Str>> { sv::<&Str>(i[0]) }
pub open spec fn B<'a>(i: Seq<Series>) -> Seq<Option<&'a Str>> { sv::<&Str>(i[1]) }
pub uninterp spec fn rof(x: real) -> R;
pub axiom fn rof_v(x: real) ensures rof(x)@ == x;
pub open spec fn words(s: Seq<Option<&Str>>) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> s[i]->0.b().len() > 0 }
// the set of n-grams over bytes; a shorter string is its own only gram
pub open spec fn ng(w: &Str, n: int) -> Set<Seq<u8>> { if w.b().len() < n { Set::empty().insert(w.b()) } else { grams(w.b(), n) } }
pub open spec fn n1(x: &Str, n: int) -> real { ng(x, n).len() as real }
pub open spec fn nb(x: &Str, y: &Str, n: int) -> real { ng(x, n).intersect(ng(y, n)).len() as real }
pub open spec fn jaccard(x: &Str, y: &Str, n: int) -> real { nb(x, y, n) / (n1(x, n) + n1(y, n) - nb(x, y, n)) }
pub open spec fn dice(x: &Str, y: &Str, n: int) -> real { 2real * nb(x, y, n) / (n1(x, n) + n1(y, n)) }
pub open spec fn overlapc(x: &Str, y: &Str, n: int) -> real { nb(x, y, n) / rmin(n1(x, n), n1(y, n)) }
pub open spec fn tversky(x: &Str, y: &Str, n: int, a: real, b: real) -> real { nb(x, y, n) / (nb(x, y, n) + a * (n1(x, n) - nb(x, y, n)) + b * (n1(y, n) - nb(x, y, n))) }
// the symmetric ones are symmetric, and Tversky contains the others
proof fn symmetric(x: &Str, y: &Str, n: int) ensures jaccard(x, y, n) == jaccard(y, x, n), dice(x, y, n) == dice(y, x, n), overlapc(x, y, n) == overlapc(y, x, n)
{ assert(ng(x, n).intersect(ng(y, n)) =~= ng(y, n).intersect(ng(x, n))); }
proof fn tversky_one(x: &Str, y: &Str, n: int) ensures tversky(x, y, n, 1real, 1real) == jaccard(x, y, n)
{ assert(nb(x, y, n) + 1real * (n1(x, n) - nb(x, y, n)) + 1real * (n1(y, n) - nb(x, y, n)) == n1(x, n) + n1(y, n) - nb(x, y, n)); }
proof fn sizes(a: Set<Seq<u8>>, b: Set<Seq<u8>>) ensures a.intersect(b).len() <= a.len(), a.intersect(b).len() <= b.len()
{ vstd::set_lib::lemma_len_subset(a.intersect(b), a); vstd::set_lib::lemma_len_subset(a.intersect(b), b); }
proof fn some_gram(w: &Str, n: int) requires w.b().len() > 0, n > 0 ensures ng(w, n).len() > 0
{ if w.b().len() < n { assert(ng(w, n).contains(w.b())); } else { let q = Seq::new((w.b().len() - n + 1) as nat, |i: int| w.b().subrange(i, i + n)); assert(q.contains(q[0])); assert(ng(w, n).contains(q[0])); }
  assert(ng(w, n) != Set::<Seq<u8>>::empty()); if ng(w, n).len() == 0 { assert(ng(w, n) =~= Set::empty()); } }
//@fn file=str_ext/mod.rs path=str_set_sim_helper ret=r parcols= methods=windows=>vx_windows
//@spec
requires ngram > 0
ensures w1.b().len() > 0 && w2.b().len() > 0 ==> r.0 == ng(w1, ngram as int).len() && r.1 == ng(w2, ngram as int).len() && r.2 == ng(w1, ngram as int).intersect(ng(w2, ngram as int)).len()
    && r.2 <= r.0 && r.2 <= r.1 && r.0 > 0 && r.1 > 0 && r.0 <= i32::MAX && r.1 <= i32::MAX
//@at let.s1.0
proof { assert([w1.b()] =~= [w1.b()]); assert(s1.s() =~= ng(w1, ngram as int)); }
//@at let.s2.0
proof { assert(s2.s() =~= ng(w2, ngram as int)); }
//@at let.intersection.0
proof { sizes(s1.s(), s2.s()); some_gram(w1, ngram as int); some_gram(w2, ngram as int); }
//@end
//@fn file=str_ext/str_jaccard.rs path=str_jaccard ret=r wrap_tail=1
//@spec
requires ngram > 0, w1.b().len() > 0, w2.b().len() > 0
ensures r == rof(jaccard(w1, w2, ngram as int))
//@at fn.end
proof { rof_v(jaccard(w1, w2, ngram as int)); r_ext(__ret, rof(jaccard(w1, w2, ngram as int))); }
//@end
//@fn file=str_ext/sorensen_dice.rs path=sorensen_dice ret=r wrap_tail=1
//@spec
requires ngram > 0, w1.b().len() > 0, w2.b().len() > 0
ensures r == rof(dice(w1, w2, ngram as int))
//@at fn.end
proof { rof_v(dice(w1, w2, ngram as int)); r_ext(__ret, rof(dice(w1, w2, ngram as int))); }
//@end
//@fn file=str_ext/overlap.rs path=overlap_coeff ret=r wrap_tail=1
//@spec
requires ngram > 0, w1.b().len() > 0, w2.b().len() > 0
ensures r == rof(overlapc(w1, w2, ngram as int))
//@at fn.end
proof { rof_v(overlapc(w1, w2, ngram as int)); r_ext(__ret, rof(overlapc(w1, w2, ngram as int))); }
//@end
//@fn file=str_ext/tversky.rs path=tversky_sim ret=r wrap_tail=1
//@spec
requires ngram > 0, w1.b().len() > 0, w2.b().len() > 0, alpha@ > 0real, beta@ > 0real
ensures r == rof(tversky(w1, w2, ngram as int, alpha@, beta@))
//@at let.s2ms1.0
proof { let (i, a, b) = (intersect as real, s1ms2@, s2ms1@); assert(alpha@ * a >= 0real) by(nonlinear_arith) requires alpha@ > 0real, a >= 0real; assert(beta@ * b >= 0real) by(nonlinear_arith) requires beta@ > 0real, b >= 0real;
  if intersect == 0 { assert(a > 0real); assert(alpha@ * a > 0real) by(nonlinear_arith) requires alpha@ > 0real, a > 0real; } }
//@at fn.end
proof { rof_v(tversky(w1, w2, ngram as int, alpha@, beta@)); r_ext(__ret, rof(tversky(w1, w2, ngram as int, alpha@, beta@))); }
//@end
//@fn file=str_ext/str_jaccard.rs path=pl_str_jaccard ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Chunks<R>>
//@spec
requires inputs.len() >= 4, strs(inputs@), has::<bool>(inputs@[3]), has::<u32>(inputs@[2]), first::<u32>(inputs@[2]) > 0, words(A(inputs@)), words(B(inputs@))
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| rof(jaccard(x, y, first::<u32>(inputs@[2]) as int)))
//@closure 0
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0 ensures o == rof(jaccard(s, r, ngram as int))
//@closure 1
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0 ensures o == rof(jaccard(s, r, ngram as int))
//@closure 2
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0 ensures o == rof(jaccard(x, y, ngram as int))
//@closure 3
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0 ensures o == rof(jaccard(x, y, ngram as int))
//@at let.n_threads.0
let ghost f1 = |x: &Str| rof(jaccard(x, r, ngram as int));
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| rof(jaccard(x, y, ngram as int));
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| rof(jaccard(x, r, ngram as int))), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), words(ca1@), ngram > 0, r.b().len() > 0,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| rof(jaccard(x, y, ngram as int))), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)), words(ca1@), ngram > 0,  words(ca2@),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| rof(jaccard(x, r, ngram as int)))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| rof(jaccard(x, y, ngram as int)))); }
//@end
//@fn file=str_ext/sorensen_dice.rs path=pl_sorensen_dice ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Chunks<R>>
//@spec
requires inputs.len() >= 4, strs(inputs@), has::<bool>(inputs@[3]), has::<u32>(inputs@[2]), first::<u32>(inputs@[2]) > 0, words(A(inputs@)), words(B(inputs@))
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| rof(dice(x, y, first::<u32>(inputs@[2]) as int)))
//@closure 0
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0 ensures o == rof(dice(s, r, ngram as int))
//@closure 1
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0 ensures o == rof(dice(s, r, ngram as int))
//@closure 2
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0 ensures o == rof(dice(x, y, ngram as int))
//@closure 3
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0 ensures o == rof(dice(x, y, ngram as int))
//@at let.n_threads.0
let ghost f1 = |x: &Str| rof(dice(x, r, ngram as int));
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| rof(dice(x, y, ngram as int));
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| rof(dice(x, r, ngram as int))), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), words(ca1@), ngram > 0, r.b().len() > 0,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| rof(dice(x, y, ngram as int))), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)), words(ca1@), ngram > 0,  words(ca2@),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| rof(dice(x, r, ngram as int)))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| rof(dice(x, y, ngram as int)))); }
//@end
//@fn file=str_ext/overlap.rs path=pl_overlap_coeff ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Chunks<R>>
//@spec
requires inputs.len() >= 4, strs(inputs@), has::<bool>(inputs@[3]), has::<u32>(inputs@[2]), first::<u32>(inputs@[2]) > 0, words(A(inputs@)), words(B(inputs@))
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| rof(overlapc(x, y, first::<u32>(inputs@[2]) as int)))
//@closure 0
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0 ensures o == rof(overlapc(s, r, ngram as int))
//@closure 1
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0 ensures o == rof(overlapc(s, r, ngram as int))
//@closure 2
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0 ensures o == rof(overlapc(x, y, ngram as int))
//@closure 3
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0 ensures o == rof(overlapc(x, y, ngram as int))
//@at let.n_threads.0
let ghost f1 = |x: &Str| rof(overlapc(x, r, ngram as int));
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| rof(overlapc(x, y, ngram as int));
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| rof(overlapc(x, r, ngram as int))), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), words(ca1@), ngram > 0, r.b().len() > 0,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| rof(overlapc(x, y, ngram as int))), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)), words(ca1@), ngram > 0,  words(ca2@),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| rof(overlapc(x, r, ngram as int)))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| rof(overlapc(x, y, ngram as int)))); }
//@end
//@fn file=str_ext/tversky.rs path=pl_tversky_sim ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Chunks<R>>
//@spec
requires inputs.len() >= 6, strs(inputs@), has::<bool>(inputs@[5]), has::<u32>(inputs@[2]), first::<u32>(inputs@[2]) > 0, words(A(inputs@)), words(B(inputs@)), has::<R>(inputs@[3]), has::<R>(inputs@[4]), first::<R>(inputs@[3])@ > 0real, first::<R>(inputs@[4])@ > 0real
ensures (r is Ok) == shapes_ok(A(inputs@), B(inputs@)), r is Ok ==> sv::<R>(r->Ok_0) =~= pairs(A(inputs@), B(inputs@), |x: &Str, y: &Str| rof(tversky(x, y, first::<u32>(inputs@[2]) as int, first::<R>(inputs@[3])@, first::<R>(inputs@[4])@)))
//@closure 0
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0, alpha@ > 0real, beta@ > 0real ensures o == rof(tversky(s, r, ngram as int, alpha@, beta@))
//@closure 1
-> (o: R) requires ngram > 0, s.b().len() > 0, r.b().len() > 0, alpha@ > 0real, beta@ > 0real ensures o == rof(tversky(s, r, ngram as int, alpha@, beta@))
//@closure 2
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0, alpha@ > 0real, beta@ > 0real ensures o == rof(tversky(x, y, ngram as int, alpha@, beta@))
//@closure 3
-> (o: R) requires ngram > 0, x.b().len() > 0, y.b().len() > 0, alpha@ > 0real, beta@ > 0real ensures o == rof(tversky(x, y, ngram as int, alpha@, beta@))
//@at let.n_threads.0
let ghost f1 = |x: &Str| rof(tversky(x, r, ngram as int, alpha@, beta@));
//@at let.n_threads.1
let ghost f2 = |x: &Str, y: &Str| rof(tversky(x, y, ngram as int, alpha@, beta@));
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX,
  f1 == (|x: &Str| rof(tversky(x, r, ngram as int, alpha@, beta@))), cat(__acc0@) == sub(map1(ca1@, f1), 0, startof(splits@, ca1@.len() as int, __i0 as int)), words(ca1@), ngram > 0, alpha@ > 0real, beta@ > 0real, r.b().len() > 0,
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, ca1@.len() as int), ca1@.len() <= i64::MAX, ca1@.len() == ca2@.len(),
  f2 == (|x: &Str, y: &Str| rof(tversky(x, y, ngram as int, alpha@, beta@))), cat(__acc1@) == sub(map2(ca1@, ca2@, f2), 0, startof(splits@, ca1@.len() as int, __i1 as int)), words(ca1@), ngram > 0, alpha@ > 0real, beta@ > 0real,  words(ca2@),
decreases __n1 - __i1
//@at loop0.pre
proof { assert(cat(__acc0@) =~= sub(map1(ca1@, f1), 0, 0)); }
//@at loop1.pre
proof { assert(cat(__acc1@) =~= sub(map2(ca1@, ca2@, f2), 0, 0)); }
//@at let.out.0
proof { assert(out@ =~= map1(s1@, f1)); }
//@at before.push.0
proof { step1(__acc0@, __v0, ca1@, f1, offset as int, len as int); }
//@at let.out.1
proof { assert(out@ =~= map1(ca1@, |x: &Str| rof(tversky(x, r, ngram as int, alpha@, beta@)))); }
//@at let.out.2
proof { assert(out@ =~= map2(s1@, s2@, f2)); }
//@at before.push.1
proof { step2(__acc1@, __v1, ca1@, ca2@, f2, offset as int, len as int); }
//@at let.out.3
proof { assert(out@ =~= map2(ca1@, ca2@, |x: &Str, y: &Str| rof(tversky(x, y, ngram as int, alpha@, beta@)))); }
//@end
}
fn main(){}
