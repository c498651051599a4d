//@include prelude_real.rs
//@include slices.rs
//@include cfavml.rs
//@default types=T:R,f64:R,HashSet:VxSet
verus!{
// ---- trusted: a hash set of bit strings ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxSet<T> { x: Option<T> }
pub trait VxKey { spec fn key(&self) -> Seq<bool>; }
impl<'a> VxKey for &'a [bool] { open spec fn key(&self) -> Seq<bool> { self@ } }
impl<'a> VxSet<&'a [bool]> {
  pub uninterp spec fn v(&self) -> Set<Seq<bool>>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v() == Set::<Seq<bool>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, k: &[bool]) -> (r: bool) ensures r == self.v().contains(k@) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: &'a [bool]) -> (r: bool) ensures final(self).v() == old(self).v().insert(k@), r == !old(self).v().contains(k@) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self.v().finite() ==> r == self.v().len() { unimplemented!() }
}
// Lempel-Ziv (1978) parsing: phrase k of the bits is cut at c[k]..c[k+1]
pub open spec fn ph(b: Seq<bool>, c: Seq<int>, k: int) -> Seq<bool> { b.subrange(c[k], c[k + 1]) }
pub open spec fn seen(b: Seq<bool>, c: Seq<int>, k: int, s: Seq<bool>) -> bool { exists|j: int| 0 <= j < k && #[trigger] ph(b, c, j) == s }
pub open spec fn cuts(b: Seq<bool>, c: Seq<int>) -> bool {
  &&& c.len() >= 1 &&& c[0] == 0
  &&& forall|k: int| 0 <= k < c.len() - 1 ==> 0 <= #[trigger] c[k] < c[k + 1] <= b.len() }
// each phrase is the shortest part that is not an earlier phrase
pub open spec fn phrases(b: Seq<bool>, c: Seq<int>) -> bool {
  &&& cuts(b, c)
  &&& forall|k: int| 0 <= k < c.len() - 1 ==> !seen(b, c, k, #[trigger] ph(b, c, k))
  &&& forall|k: int, m: int| 0 <= k < c.len() - 1 && c[k] < m < c[k + 1] ==> #[trigger] seen(b, c, k, b.subrange(c[k], m)) }
// and what is left over at the end contains nothing new
pub open spec fn lz_parse(b: Seq<bool>, c: Seq<int>) -> bool {
  &&& phrases(b, c) &&& 0 <= c.last() <= b.len()
  &&& forall|m: int| c.last() < m <= b.len() ==> #[trigger] seen(b, c, c.len() - 1, b.subrange(c.last(), m)) }
proof fn ph_push(b: Seq<bool>, c: Seq<int>, x: int, k: int, s: Seq<bool>) requires 0 <= k <= c.len() - 1
  ensures seen(b, c.push(x), k, s) == seen(b, c, k, s)
{ assert forall|j: int| 0 <= j < k implies ph(b, c.push(x), j) == #[trigger] ph(b, c, j) by {} 
  assert forall|j: int| 0 <= j < k implies #[trigger] ph(b, c.push(x), j) == ph(b, c, j) by {}
  if seen(b, c, k, s) { let j = choose|j: int| 0 <= j < k && #[trigger] ph(b, c, j) == s; assert(ph(b, c.push(x), j) == s); } }

//@fn file=num_ext/lempel_ziv.rs path=pl_lempel_ziv_complexity name=lempel_ziv
//@sig fn lempel_ziv(bits: Vec<bool>)
//@from let mut ind
//@through let c =
//@spec
requires bits.len() < usize::MAX
//@at let.sub_strings.0
let ghost mut cs: Seq<int> = seq![0int]; let ghost b = bits@;
proof { assert(b.subrange(0, 0) =~= seq![]); }
//@loop 0
invariant bits.len() < usize::MAX, b == bits@, phrases(b, cs), cs.last() == ind, 0 <= ind <= b.len(), inc >= 1, ind + inc <= b.len() + 1,
  forall|s: Seq<bool>| #[trigger] sub_strings.v().contains(s) == seen(b, cs, cs.len() - 1, s), sub_strings.v().finite(), sub_strings.v().len() == cs.len() - 1,
  forall|m: int| cs.last() < m < ind + inc ==> #[trigger] seen(b, cs, cs.len() - 1, b.subrange(cs.last(), m)),
decreases b.len() - ind, b.len() + 1 - inc
//@at loop0.start
let ghost c0 = cs; let ghost v0 = sub_strings.v();
//@at call.insert.0
proof { let e = ind + inc; cs = c0.push(e); let n = c0.len() as int; let s0 = subseq@;
  assert(s0 == b.subrange(c0.last(), e)); assert(ph(b, cs, n - 1) == s0);
  assert forall|k: int, s: Seq<bool>| 0 <= k <= n - 1 implies #[trigger] seen(b, cs, k, s) == seen(b, c0, k, s) by { ph_push(b, c0, e, k, s); }
  assert forall|k: int| 0 <= k < n implies !seen(b, cs, k, #[trigger] ph(b, cs, k)) by { if k < n - 1 { assert(ph(b, cs, k) == ph(b, c0, k)); } }
  assert forall|k: int, m: int| 0 <= k < n && cs[k] < m < cs[k + 1] implies #[trigger] seen(b, cs, k, b.subrange(cs[k], m)) by { if k < n - 1 { assert(seen(b, c0, k, b.subrange(c0[k], m))); } else { assert(seen(b, c0, k, b.subrange(c0.last(), m))); } }
  assert forall|s: Seq<bool>| #[trigger] sub_strings.v().contains(s) == seen(b, cs, n, s) by {
    if seen(b, cs, n, s) { let j = choose|j: int| 0 <= j < n && #[trigger] ph(b, cs, j) == s; if j < n - 1 { assert(ph(b, c0, j) == s); assert(seen(b, c0, n - 1, s)); } }
    else if v0.contains(s) { assert(seen(b, c0, n - 1, s)); let j = choose|j: int| 0 <= j < n - 1 && #[trigger] ph(b, c0, j) == s; assert(ph(b, cs, j) == s); } } }
//@at let.c.0
proof { assert(lz_parse(b, cs)); assert(exists|p: Seq<int>| #[trigger] lz_parse(b, p) && c == p.len() - 1); }
//@end

// ---- windows of a series that are close to a query ----
#[verifier::external_body] pub fn vx_zero() -> (r: u32) ensures r == 0 { 0 }
pub open spec fn hits(s: Seq<R>, q: Seq<R>, t: real, n: int) -> nat decreases n { if n <= 0 { 0nat } else { hits(s, q, t, n - 1) + if sqd(q, s.subrange(n - 1, n - 1 + q.len()), q.len() as int) < t { 1nat } else { 0nat } } }
proof fn hits_le(s: Seq<R>, q: Seq<R>, t: real, n: int) ensures hits(s, q, t, n) <= if n < 0 { 0 } else { n } decreases n { if n > 0 { hits_le(s, q, t, n - 1); } }
proof fn sqd_sym(a: Seq<R>, b: Seq<R>, n: int) ensures sqd(a, b, n) == sqd(b, a, n) decreases n
{ if n > 0 { sqd_sym(a, b, n - 1); let (x, y) = (a[n - 1]@, b[n - 1]@); assert((x - y) * (x - y) == (y - x) * (y - x)) by(nonlinear_arith); } }
//@fn file=num_ext/subseq_sim.rs path=pl_subseq_sim_cnt_l2 name=sim_l2 ref_iter=w,query
//@sig fn sim_l2(seq: &[R], query: &[R], threshold: R, window_size: usize, par: bool)
//@from let n = if par
//@through let n = if par
//@spec
requires window_size == query.len(), 1 <= query.len() <= seq.len(), seq.len() < u32::MAX
//@loop 0
invariant __i0 <= __n0, __n0 + window_size == seq.len() + 1, window_size >= 1, seq.len() < u32::MAX, window_size == query.len(), __acc0 == hits(seq@, query@, threshold@, __i0 as int),
decreases __n0 - __i0
//@at loop0.start
proof { hits_le(seq@, query@, threshold@, __i0 as int); }
//@loop 1
invariant __i1 <= __n1, __n1 + window_size == seq.len() + 1, window_size >= 1, seq.len() < u32::MAX, window_size == query.len(), __acc1 == hits(seq@, query@, threshold@, __i1 as int),
decreases __n1 - __i1
//@at loop1.start
proof { hits_le(seq@, query@, threshold@, __i1 as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == w.len(), w.len() == query.len(), __acc2@ == sqd(w@, query@, __i2 as int),
decreases __n2 - __i2
//@at let.d.0
proof { sqd_sym(w@, query@, w.len() as int); }
//@loop 3
invariant __i3 <= __n3, __n3 + window_size == seq.len() + 1, window_size >= 1, seq.len() < u32::MAX, window_size == query.len(), __acc3 == hits(seq@, query@, threshold@, __i3 as int),
decreases __n3 - __i3
//@at loop3.start
proof { hits_le(seq@, query@, threshold@, __i3 as int); }
//@at let.n.0
proof { assert(n == hits(seq@, query@, threshold@, seq.len() - query.len() + 1)); }
//@end

// the window at i, normalised by the given mean and variance at i
pub open spec fn zwin(s: Seq<R>, m: Seq<R>, v: Seq<R>, i: int, k: int) -> Seq<real> { Seq::new(k as nat, |j: int| (s[i + j]@ - m[i]@) / rsqrt(v[i]@)) }
pub open spec fn zsq(q: Seq<R>, z: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { zsq(q, z, n - 1) + (q[n - 1]@ - z[n - 1]) * (q[n - 1]@ - z[n - 1]) } }
pub open spec fn zhit(s: Seq<R>, q: Seq<R>, m: Seq<R>, v: Seq<R>, t: real, i: int) -> nat { if zsq(q, zwin(s, m, v, i, q.len() as int), q.len() as int) < t { 1nat } else { 0nat } }
pub open spec fn zhits(s: Seq<R>, q: Seq<R>, m: Seq<R>, v: Seq<R>, t: real, a: int, n: int) -> nat decreases n - a { if n <= a { 0nat } else { zhits(s, q, m, v, t, a, n - 1) + zhit(s, q, m, v, t, n - 1) } }
proof fn zhits_le(s: Seq<R>, q: Seq<R>, m: Seq<R>, v: Seq<R>, t: real, a: int, n: int) requires a <= n ensures zhits(s, q, m, v, t, a, n) <= n - a decreases n - a { if n > a { zhits_le(s, q, m, v, t, a, n - 1); } }
proof fn zhits_split(s: Seq<R>, q: Seq<R>, m: Seq<R>, v: Seq<R>, t: real, a: int, b: int, n: int) requires a <= b <= n ensures zhits(s, q, m, v, t, a, n) == zhits(s, q, m, v, t, a, b) + zhits(s, q, m, v, t, b, n) decreases n - b { if n > b { zhits_split(s, q, m, v, t, a, b, n - 1); } }
proof fn sqd_zsq(q: Seq<R>, z: Seq<R>, w: Seq<real>, n: int) requires forall|j: int| 0 <= j < n ==> (#[trigger] z[j])@ == w[j] ensures sqd(q, z, n) == zsq(q, w, n) decreases n { if n > 0 { sqd_zsq(q, z, w, n - 1); assert(z[n - 1]@ == w[n - 1]); } }
proof fn rs_pos(x: real) requires x > 0real ensures rsqrt(x) != 0real { rsqrt_def(x); let s = rsqrt(x); assert(s != 0real) by(nonlinear_arith) requires s * s > 0real; }
pub struct VxPool { }
pub const POOL: VxPool = VxPool { };
impl VxPool { #[verifier::external_body] pub fn current_num_threads(&self) -> (r: usize) ensures r >= 1 { unimplemented!() } }
// proved in par.vrs from the same source
#[verifier::external_body] pub fn split_offsets(len: usize, n: usize) -> (v: Vec<(usize, usize)>)
requires n >= 1
ensures v.len() == n, n == 1 ==> v@[0] == (0usize, len),
  forall|i: int| 0 <= i < n ==> (#[trigger] v@[i]).0 == i * (len / n) && v@[i].0 + v@[i].1 == (if i == n - 1 { len as int } else { (i + 1) * (len / n) }) { unimplemented!() }
pub open spec fn wins(w: Seq<&[R]>, s: Seq<R>, k: int) -> bool { w.len() == s.len() - k + 1 && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@ == s.subrange(i, i + k) }

//@fn file=num_ext/subseq_sim.rs path=pl_subseq_sim_cnt_zl2 name=sim_zl2 calls=crate::utils::split_offsets=>split_offsets
//@sig fn sim_zl2(seq: &[R], query: &[R], rolling_mean: &[R], rolling_var: &[R], threshold: R, window_size: usize, total_windows: usize, par: bool)
//@from let n = if par
//@through let n = if par
//@letty __acc0 Vec<&[R]>
//@letty __acc3 Vec<R>
//@letty __acc5 Vec<R>
//@spec
requires window_size == query.len(), 1 <= query.len() <= seq.len(), seq.len() < u32::MAX, total_windows == seq.len() - query.len() + 1,
  rolling_mean.len() == total_windows, rolling_var.len() == total_windows, forall|i: int| 0 <= i < total_windows ==> (#[trigger] rolling_var@[i])@ > 0real
//@loop 0
invariant __i0 <= __n0, __n0 + window_size == seq.len() + 1, window_size >= 1, __acc0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i])@ == seq@.subrange(i, i + window_size),
decreases __n0 - __i0
//@at let.splits.0
let ghost (S, Q, M, V, T, nt) = (seq@, query@, rolling_mean@, rolling_var@, threshold@, n_threads as int); let ghost tot = total_windows as int; let ghost kw = query@.len() as int;
proof { if nt == 1 { assert(1 * (tot / 1) == tot); } assert(0 * (tot / nt) == 0); assert(splits@[0].0 == 0); }
//@loop 1
invariant __i1 <= __n1, __n1 == nt, nt >= 1, splits.len() == nt, S == seq@, Q == query@, M == rolling_mean@, V == rolling_var@, T == threshold@, kw == Q.len(), window_size == kw, tot == S.len() - kw + 1, tot == total_windows, kw >= 1,
  wins(windows@, S, kw), M.len() == tot, V.len() == tot, S.len() < u32::MAX, tot >= 1, forall|i: int| 0 <= i < tot ==> (#[trigger] V[i])@ > 0real,
  forall|i: int| 0 <= i < nt ==> (#[trigger] splits@[i]).0 == i * (tot / nt) && splits@[i].0 + splits@[i].1 == (if i == nt - 1 { tot } else { (i + 1) * (tot / nt) }),
  __acc1 == zhits(S, Q, M, V, T, 0, if __i1 == nt { tot } else { __i1 * (tot / nt) }),
decreases __n1 - __i1
//@at let.offset.0
let ghost (o, l, acc1) = (splits@[__p1 as int].0 as int, splits@[__p1 as int].1 as int, __acc1);
proof { let c = tot / nt; assert(c * nt <= tot) by(nonlinear_arith) requires c == tot / nt, nt >= 1, tot >= 0; assert(c >= 0) by(nonlinear_arith) requires c == tot / nt, nt >= 1, tot >= 0; let p = __p1 as int;
  assert(0 <= p * c) by(nonlinear_arith) requires p >= 0, c >= 0;
  assert((p + 1) * c == p * c + c) by(nonlinear_arith); assert((p + 1) * c <= nt * c) by(nonlinear_arith) requires p + 1 <= nt, c >= 0; assert(nt * c == c * nt) by(nonlinear_arith);
  zhits_le(S, Q, M, V, T, 0, o); zhits_le(S, Q, M, V, T, o, o + l); zhits_split(S, Q, M, V, T, 0, o, o + l); }
//@loop 2
invariant __i2 <= __n2, __n2 == l, __s1@ == windows@.subrange(o, o + l), __s1@.len() == l, 0 <= o, o + l <= tot, offset == o, S == seq@, Q == query@, M == rolling_mean@, V == rolling_var@, T == threshold@, kw == Q.len(), tot == S.len() - kw + 1, kw >= 1, 
  wins(windows@, S, kw), M.len() == tot, V.len() == tot, S.len() < u32::MAX, forall|i: int| 0 <= i < tot ==> (#[trigger] V[i])@ > 0real,
  acc == zhits(S, Q, M, V, T, o, o + __i2),
decreases __n2 - __i2
//@at let.actual_i.0
proof { assert(w@ == S.subrange(actual_i as int, actual_i + kw)) by { assert(__s1@[__p2 as int] == windows@[o + __p2]); } zhits_le(S, Q, M, V, T, o, o + __p2); assert(V[actual_i as int]@ > 0real); rs_pos(V[actual_i as int]@); }
//@loop 3
invariant __i3 <= __n3, __n3 == w@.len(), w@.len() == kw, w@ == S.subrange(actual_i as int, actual_i + kw), 0 <= actual_i < tot, M == rolling_mean@, V == rolling_var@, M.len() == tot, V.len() == tot, V[actual_i as int]@ > 0real, rsqrt(V[actual_i as int]@) != 0real,
  __acc3@.len() == __i3, forall|j: int| 0 <= j < __i3 ==> (#[trigger] __acc3@[j])@ == zwin(S, M, V, actual_i as int, kw)[j], kw >= 1, tot == S.len() - kw + 1, 
decreases __n3 - __i3
//@at let.normalized.0
proof { sqd_zsq(Q, normalized@, zwin(S, M, V, actual_i as int, kw), kw); }
//@loop 4
invariant __i4 <= __n4, __n4 + window_size == seq.len() + 1, window_size >= 1, seq.len() < u32::MAX, window_size == query.len(), total_windows == __n4,
  rolling_mean.len() == total_windows, rolling_var.len() == total_windows, forall|i: int| 0 <= i < total_windows ==> (#[trigger] rolling_var@[i])@ > 0real,
  __acc4 == zhits(seq@, query@, rolling_mean@, rolling_var@, threshold@, 0, __i4 as int),
decreases __n4 - __i4
//@at let.w.1
proof { zhits_le(seq@, query@, rolling_mean@, rolling_var@, threshold@, 0, __p4 as int); assert(rolling_var@[i as int]@ > 0real); rs_pos(rolling_var@[i as int]@); }
//@loop 5
invariant __i5 <= __n5, __n5 == w@.len(), w@.len() == window_size, w@ == seq@.subrange(i as int, i + window_size), 0 <= i < total_windows, rolling_mean.len() == total_windows, rolling_var.len() == total_windows, rolling_var@[i as int]@ > 0real, rsqrt(rolling_var@[i as int]@) != 0real,
  __acc5@.len() == __i5, forall|j: int| 0 <= j < __i5 ==> (#[trigger] __acc5@[j])@ == zwin(seq@, rolling_mean@, rolling_var@, i as int, window_size as int)[j], i + window_size <= seq.len(),
decreases __n5 - __i5
//@at let.normalized.1
proof { sqd_zsq(query@, normalized@, zwin(seq@, rolling_mean@, rolling_var@, i as int, window_size as int), window_size as int); }
//@at let.n.0
proof { assert(n == zhits(seq@, query@, rolling_mean@, rolling_var@, threshold@, 0, total_windows as int)); }
//@end
}
fn main(){}
