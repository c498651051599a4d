//@include prelude_real.rs
//@include slices.rs
//@default types=T:R,f64:R,A:u32 strip=OwnedKDT,OwnedLeaf,NB,DIST drop=DIST::ANY
verus!{
use vstd::multiset::*;
//@enum path=DIST file=utils/mod.rs
//@struct path=OwnedLeaf file=arkadia/leaf.rs
//@struct path=NB file=arkadia/neighbor.rs
//@enum path=SplitMethod file=arkadia/utils.rs
//@struct path=OwnedKDT file=arkadia/kdt.rs
impl Clone for SplitMethod { #[verifier::external_body] fn clone(&self) -> (r: SplitMethod) ensures r == *self { unimplemented!() } }
impl Copy for DIST {}
impl Clone for DIST { #[verifier::external_body] fn clone(&self) -> (r: DIST) ensures r == *self { unimplemented!() } }
impl Clone for OwnedLeaf { #[verifier::external_body] fn clone(&self) -> (r: OwnedLeaf) ensures r == *self { unimplemented!() } }

// ---------------------------------------------------------------- the distances, by definition
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn l1s(a: Seq<R>, b: Seq<R>, n: nat) -> real decreases n { if n == 0 { 0real } else { l1s(a, b, (n - 1) as nat) + rabs(a[n - 1]@ - b[n - 1]@) } }
pub open spec fn l2s(a: Seq<R>, b: Seq<R>, n: nat) -> real decreases n { if n == 0 { 0real } else { l2s(a, b, (n - 1) as nat) + sq(a[n - 1]@ - b[n - 1]@) } }
pub open spec fn lis(a: Seq<R>, b: Seq<R>, n: nat) -> real decreases n { if n == 0 { 0real } else { rmax(lis(a, b, (n - 1) as nat), rabs(a[n - 1]@ - b[n - 1]@)) } }
pub open spec fn sdist(d: DIST, a: Seq<R>, b: Seq<R>) -> real {
  let n = if a.len() < b.len() { a.len() } else { b.len() };
  match d {
    DIST::L1 => l1s(a, b, n),
    DIST::L2 => rsqrt(l2s(a, b, n)),
    DIST::L2SIMD => rsqrt(l2s(a, b, n)),
    DIST::SQL2 => l2s(a, b, n),
    DIST::SQL2SIMD => l2s(a, b, n),
    DIST::LINF => lis(a, b, n),
  }
}
// gap between a coordinate and an interval
pub open spec fn gap(x: real, lo: real, hi: real) -> real { if x > hi { x - hi } else if x < lo { lo - x } else { 0real } }
pub open spec fn b1(b: Seq<R>, p: Seq<R>, dim: nat, n: nat) -> real decreases n { if n == 0 { 0real } else { b1(b, p, dim, (n - 1) as nat) + gap(p[n - 1]@, b[n - 1]@, b[n - 1 + dim]@) } }
pub open spec fn b2(b: Seq<R>, p: Seq<R>, dim: nat, n: nat) -> real decreases n { if n == 0 { 0real } else { b2(b, p, dim, (n - 1) as nat) + sq(gap(p[n - 1]@, b[n - 1]@, b[n - 1 + dim]@)) } }
pub open spec fn bi(b: Seq<R>, p: Seq<R>, dim: nat, n: nat) -> real decreases n { if n == 0 { 0real } else { rmax(bi(b, p, dim, (n - 1) as nat), gap(p[n - 1]@, b[n - 1]@, b[n - 1 + dim]@)) } }
pub open spec fn sbox(d: DIST, b: Seq<R>, p: Seq<R>, dim: nat) -> real {
  match d {
    DIST::L1 => b1(b, p, dim, dim),
    DIST::L2 => rsqrt(b2(b, p, dim, dim)),
    DIST::L2SIMD => rsqrt(b2(b, p, dim, dim)),
    DIST::SQL2 => b2(b, p, dim, dim),
    DIST::SQL2SIMD => b2(b, p, dim, dim),
    DIST::LINF => bi(b, p, dim, dim),
  }
}
pub open spec fn ib(x: Seq<R>, b: Seq<R>, dim: nat, i: int) -> bool { b[i]@ <= x[i]@ <= b[i + dim]@ }
pub open spec fn inbox(x: Seq<R>, b: Seq<R>, dim: nat) -> bool { x.len() == dim && forall|i: int| 0 <= i < dim ==> #[trigger] ib(x, b, dim, i) }
proof fn l2_nonneg(a: Seq<R>, b: Seq<R>, n: nat) ensures l2s(a, b, n) >= 0real decreases n {
  if n > 0 { l2_nonneg(a, b, (n - 1) as nat); let z = a[n - 1]@ - b[n - 1]@; assert(z * z >= 0real) by(nonlinear_arith); } }
proof fn b2_nonneg(b: Seq<R>, p: Seq<R>, dim: nat, n: nat) ensures b2(b, p, dim, n) >= 0real decreases n {
  if n > 0 { b2_nonneg(b, p, dim, (n - 1) as nat); let z = gap(p[n - 1]@, b[n - 1]@, b[n - 1 + dim]@); assert(z * z >= 0real) by(nonlinear_arith); } }
proof fn sqrt_mono(x: real, y: real) requires 0real <= x <= y ensures rsqrt(x) <= rsqrt(y) {
  rsqrt_def(x); rsqrt_def(y); let a = rsqrt(x); let b = rsqrt(y);
  if a > b { assert(a * a > b * b) by(nonlinear_arith) requires a > b, b >= 0real; } }
proof fn box_lower_n(x: Seq<R>, b: Seq<R>, p: Seq<R>, dim: nat, n: nat)
  requires inbox(x, b, dim), n <= dim, p.len() == dim
  ensures b1(b, p, dim, n) <= l1s(x, p, n), b2(b, p, dim, n) <= l2s(x, p, n), bi(b, p, dim, n) <= lis(x, p, n)
  decreases n {
  if n > 0 { box_lower_n(x, b, p, dim, (n - 1) as nat);
    let i = n - 1; assert(ib(x, b, dim, i));
    let g = gap(p[i]@, b[i]@, b[i + dim]@); let z = x[i]@ - p[i]@;
    assert(0real <= g <= rabs(z));
    assert(g * g <= z * z) by(nonlinear_arith) requires 0real <= g, g <= z || g <= -z; } }
// the distance to the box is a lower bound for the distance to any point in it: the pruning lemma
proof fn box_lower(d: DIST, x: Seq<R>, b: Seq<R>, p: Seq<R>, dim: nat)
  requires inbox(x, b, dim), p.len() == dim ensures sbox(d, b, p, dim) <= sdist(d, x, p) {
  box_lower_n(x, b, p, dim, dim); b2_nonneg(b, p, dim, dim); l2_nonneg(x, p, dim);
  sqrt_mono(b2(b, p, dim, dim), l2s(x, p, dim)); }

// cfavml (dependency): squared Euclidean distance
pub mod cfavml { use super::*;
  verus!{ #[verifier::external_body] pub fn squared_euclidean(a: &[R], b: &[R]) -> (r: R)
    ensures r@ == l2s(a@, b@, if a@.len() < b@.len() { a@.len() } else { b@.len() }) { unimplemented!() } } }

impl DIST {
//@fn path=DIST::dist file=utils/mod.rs ret=d
//@spec
ensures d@ == sdist(*self, a1@, a2@)
//@at fn.start
proof { l2_nonneg(a1@, a2@, if a1@.len() < a2@.len() { a1@.len() } else { a2@.len() }); }
//@loop 0
invariant 0 <= __i0 <= __n0, __n0 <= a1.len(), __n0 <= a2.len(), __acc0@ == l1s(a1@, a2@, __i0 as nat),
decreases __n0 - __i0
//@loop 1
invariant 0 <= __i1 <= __n1, __n1 <= a1.len(), __n1 <= a2.len(), __acc1@ == l2s(a1@, a2@, __i1 as nat), __acc1@ >= 0real,
decreases __n1 - __i1
//@at loop1.end
proof { l2_nonneg(a1@, a2@, __i1 as nat); }
//@loop 2
invariant 0 <= __i2 <= __n2, __n2 <= a1.len(), __n2 <= a2.len(), __acc2@ == l2s(a1@, a2@, __i2 as nat),
decreases __n2 - __i2
//@loop 3
invariant 0 <= __i3 <= __n3, __n3 <= a1.len(), __n3 <= a2.len(), __acc3@ == lis(a1@, a2@, __i3 as nat),
decreases __n3 - __i3
//@end
}
//@fn path=_closest_dist_to_box file=arkadia/kdt.rs ret=r
//@spec
requires bounds.len() == 2 * dim, point.len() == dim ensures r@ == sbox(d, bounds@, point@, dim as nat)
//@loop 0
invariant 0 <= __i0 <= __n0 == dim, bounds.len() == 2 * dim, point.len() == dim, dist@ == b1(bounds@, point@, dim as nat, __i0 as nat),
decreases __n0 - __i0
//@loop 1
invariant 0 <= __i1 <= __n1 == dim, bounds.len() == 2 * dim, point.len() == dim, dist@ == b2(bounds@, point@, dim as nat, __i1 as nat), dist@ >= 0real,
decreases __n1 - __i1
//@at loop1.start
let ghost __d0 = dist@;
//@at loop1.end
proof { b2_nonneg(bounds@, point@, dim as nat, __i1 as nat);
  let x = point@[i as int]@; let lo = bounds@[i as int]@; let hi = bounds@[i + dim]@;
  assert((x - lo) * (x - lo) == (lo - x) * (lo - x)) by(nonlinear_arith); }
//@loop 2
invariant 0 <= __i2 <= __n2 == dim, bounds.len() == 2 * dim, point.len() == dim, dist@ == b2(bounds@, point@, dim as nat, __i2 as nat),
decreases __n2 - __i2
//@at loop2.end
proof { let x = point@[i as int]@; let lo = bounds@[i as int]@; let hi = bounds@[i + dim]@;
  assert((x - lo) * (x - lo) == (lo - x) * (lo - x)) by(nonlinear_arith); }
//@loop 3
invariant 0 <= __i3 <= __n3 == dim, bounds.len() == 2 * dim, point.len() == dim, dist@ == bi(bounds@, point@, dim as nat, __i3 as nat),
decreases __n3 - __i3
//@end

impl OwnedLeaf {
//@fn path=OwnedLeaf::dim file=arkadia/leaf.rs ret=r
//@spec
ensures r == self.row_vec@.len()
//@end
//@fn path=OwnedLeaf::value_at file=arkadia/leaf.rs ret=r
//@spec
requires idx < self.row_vec@.len() ensures r == self.row_vec@[idx as int]
//@end
//@fn path=OwnedLeaf::vec file=arkadia/leaf.rs ret=r
//@spec
ensures r@ == self.row_vec@
//@end
}

// ---------------------------------------------------------------- the tree
pub type Key = (real, u32);
pub open spec fn nodes(t: OwnedKDT) -> nat decreases t {
  1 + (match t.left { Some(l) => nodes(*l), None => 0 }) + (match t.right { Some(r) => nodes(*r), None => 0 }) }
pub open spec fn leaf(t: OwnedKDT) -> bool { t.left is None && t.right is None }
pub open spec fn allin(t: OwnedKDT, b: Seq<R>, dim: nat) -> bool decreases t {
  if t.left is None || t.right is None { forall|i: int| 0 <= i < t.data@.len() ==> inbox((#[trigger] t.data@[i]).row_vec@, b, dim) }
  else { allin(*t.left->0, b, dim) && allin(*t.right->0, b, dim) } }
// well-formed: every node's box contains every point stored below it; only leaves hold points
pub open spec fn wf(t: OwnedKDT, dim: nat, d: DIST) -> bool decreases t {
  t.dim == dim && t.d == d && t.bounds@.len() == 2 * dim && allin(t, t.bounds@, dim) && (t.left is None <==> t.right is None)
  && (!(t.left is None || t.right is None) ==> t.data@.len() == 0 && t.split_axis < dim && wf(*t.left->0, dim, d) && wf(*t.right->0, dim, d)) }
// (distance to q, item) of the points in a leaf's list / below a node
pub open spec fn keysl(s: Seq<OwnedLeaf>, d: DIST, q: Seq<R>, n: nat) -> Multiset<Key> decreases n {
  if n == 0 { Multiset::empty() } else { keysl(s, d, q, (n - 1) as nat).insert((sdist(d, s[n - 1].row_vec@, q), s[n - 1].item)) } }
pub open spec fn keys(t: OwnedKDT, d: DIST, q: Seq<R>) -> Multiset<Key> decreases t {
  if t.left is None || t.right is None { keysl(t.data@, d, q, t.data@.len()) } else { keys(*t.left->0, d, q).add(keys(*t.right->0, d, q)) } }
pub open spec fn within(m: Multiset<Key>, r: real) -> Multiset<Key> { m.filter(|k: Key| k.0 <= r) }
pub type Pend<'p> = Seq<(R, &'p OwnedKDT)>;
pub open spec fn pkeys(p: Pend, d: DIST, q: Seq<R>) -> Multiset<Key> decreases p.len() {
  if p.len() == 0 { Multiset::empty() } else { pkeys(p.drop_last(), d, q).add(keys(*p.last().1, d, q)) } }
pub open spec fn pnodes(p: Pend) -> nat decreases p.len() { if p.len() == 0 { 0 } else { pnodes(p.drop_last()) + nodes(*p.last().1) } }
pub open spec fn lower(t: OwnedKDT, d: DIST, q: Seq<R>, b: real) -> bool { forall|k: Key| #[trigger] keys(t, d, q).count(k) > 0 ==> b <= k.0 }
pub open spec fn pok(p: Pend, dim: nat, d: DIST, q: Seq<R>) -> bool {
  forall|i: int| 0 <= i < p.len() ==> wf(*(#[trigger] p[i]).1, dim, d) && lower(*p[i].1, d, q, p[i].0@) }
pub open spec fn nbm(s: Seq<NB>) -> Multiset<Key> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { nbm(s.drop_last()).insert((s.last().dist@, s.last().item)) } }

proof fn allin_lower(t: OwnedKDT, b: Seq<R>, dim: nat, d: DIST, q: Seq<R>)
  requires allin(t, b, dim), q.len() == dim ensures lower(t, d, q, sbox(d, b, q, dim)) decreases t {
  if t.left is None || t.right is None { keysl_lower(t.data@, b, dim, d, q, t.data@.len()); }
  else { allin_lower(*t.left->0, b, dim, d, q); allin_lower(*t.right->0, b, dim, d, q);
    assert forall|k: Key| #[trigger] keys(t, d, q).count(k) > 0 implies sbox(d, b, q, dim) <= k.0 by {
      assert(keys(*t.left->0, d, q).count(k) > 0 || keys(*t.right->0, d, q).count(k) > 0); } } }
proof fn keysl_lower(s: Seq<OwnedLeaf>, b: Seq<R>, dim: nat, d: DIST, q: Seq<R>, n: nat)
  requires forall|i: int| 0 <= i < s.len() ==> inbox((#[trigger] s[i]).row_vec@, b, dim), q.len() == dim, n <= s.len()
  ensures forall|k: Key| #[trigger] keysl(s, d, q, n).count(k) > 0 ==> sbox(d, b, q, dim) <= k.0 decreases n {
  if n > 0 { keysl_lower(s, b, dim, d, q, (n - 1) as nat); let x = s[n - 1]; assert(inbox(x.row_vec@, b, dim)); box_lower(d, x.row_vec@, b, q, dim);
    assert forall|k: Key| #[trigger] keysl(s, d, q, n).count(k) > 0 implies sbox(d, b, q, dim) <= k.0 by {
      if k != (sdist(d, x.row_vec@, q), x.item) { assert(keysl(s, d, q, (n - 1) as nat).count(k) > 0); } } } }
proof fn within_far(m: Multiset<Key>, r: real) requires forall|k: Key| #[trigger] m.count(k) > 0 ==> r < k.0 ensures within(m, r) =~= Multiset::empty() {}
proof fn within_add(a: Multiset<Key>, b: Multiset<Key>, r: real) ensures within(a.add(b), r) =~= within(a, r).add(within(b, r)) {}
proof fn nodes_pos(t: OwnedKDT) ensures nodes(t) >= 1 decreases t {}

impl OwnedKDT {
//@fn path=OwnedKDT::is_leaf file=arkadia/kdt.rs ret=r
//@spec
ensures r == leaf(*self)
//@end
//@fn path=OwnedKDT::update_nb_within file=arkadia/kdt.rs
//@spec
ensures nbm(final(neighbors)@) =~= nbm(old(neighbors)@).add(within(keysl(self.data@, self.d, point@, self.data@.len()), radius@))
//@loop 0
invariant 0 <= __i0 <= __n0 == self.data@.len(), nbm(neighbors@) =~= nbm(old(neighbors)@).add(within(keysl(self.data@, self.d, point@, __i0 as nat), radius@)),
decreases __n0 - __i0
//@at loop0.start
let ghost n0 = neighbors@;
//@at loop0.end
proof { let k = (dist@, element.item); let m = keysl(self.data@, self.d, point@, (__i0 - 1) as nat);
  if dist@ <= radius@ { assert(neighbors@.drop_last() =~= n0); }
  assert(within(m.insert(k), radius@) =~= if k.0 <= radius@ { within(m, radius@).insert(k) } else { within(m, radius@) }); }
//@end
//@fn path=OwnedKDT::within_one_step file=arkadia/kdt.rs
//@spec
requires old(pending)@.len() > 0, self.dim == point@.len(), pok(old(pending)@, self.dim as nat, self.d, point@)
ensures pok(final(pending)@, self.dim as nat, self.d, point@), pnodes(final(pending)@) < pnodes(old(pending)@),
  nbm(final(neighbors)@).add(within(pkeys(final(pending)@, self.d, point@), radius@)) =~= nbm(old(neighbors)@).add(within(pkeys(old(pending)@, self.d, point@), radius@)),
//@at before.return.0
proof { within_far(keys(*tree, self.d, point@), radius@); within_add(pkeys(pending@, self.d, point@), keys(*tree, self.d, point@), radius@); nodes_pos(*tree); }
//@at let.next.2
proof { assert(wf(*next, self.dim as nat, self.d)); assert(wf(*current, self.dim as nat, self.d)); }
//@loop 0
invariant self.dim == point@.len(), wf(*current, self.dim as nat, self.d), pok(pending@, self.dim as nat, self.d, point@),
  *neighbors == *old(neighbors),
  pnodes(pending@) + nodes(*current) <= pnodes(old(pending)@),
  within(pkeys(pending@, self.d, point@), radius@).add(within(keys(*current, self.d, point@), radius@)) =~= within(pkeys(old(pending)@, self.d, point@), radius@),
decreases nodes(*current)
//@at loop0.start
let ghost c0 = *current; let ghost p0 = pending@;
//@at loop0.end
proof { step_lemma(c0, *current, *next, p0, dist_to_box@, self.dim as nat, self.d, point@);
  if dist_to_box@ <= radius@ { assert(pending@.drop_last() =~= p0); } else { within_far(keys(*next, self.d, point@), radius@); }
  within_add(keys(*current, self.d, point@), keys(*next, self.d, point@), radius@);
  within_add(pkeys(p0, self.d, point@), keys(*next, self.d, point@), radius@); }
//@end
//@fn path=OwnedKDT::within_count_one_step file=arkadia/kdt.rs ret=r
//@spec
requires old(pending)@.len() > 0, self.dim == point@.len(), pok(old(pending)@, self.dim as nat, self.d, point@),
  within(pkeys(old(pending)@, self.d, point@), radius@).len() <= u32::MAX
ensures pok(final(pending)@, self.dim as nat, self.d, point@), pnodes(final(pending)@) < pnodes(old(pending)@),
  r + within(pkeys(final(pending)@, self.d, point@), radius@).len() == within(pkeys(old(pending)@, self.d, point@), radius@).len(),
//@at let.next.2
proof { assert(wf(*next, self.dim as nat, self.d)); assert(wf(*current, self.dim as nat, self.d)); }
//@at fn.start
proof { let p = old(pending)@; let t = *p.last().1; within_add(pkeys(p.drop_last(), self.d, point@), keys(t, self.d, point@), radius@);
  if p.last().0@ > radius@ { within_far(keys(t, self.d, point@), radius@); } nodes_pos(t); }
//@loop 0
invariant self.dim == point@.len(), wf(*current, self.dim as nat, self.d), pok(pending@, self.dim as nat, self.d, point@),
  pnodes(pending@) + nodes(*current) <= pnodes(old(pending)@),
  within(pkeys(pending@, self.d, point@), radius@).add(within(keys(*current, self.d, point@), radius@)) =~= within(pkeys(old(pending)@, self.d, point@), radius@),
decreases nodes(*current)
//@at loop0.start
let ghost c0 = *current; let ghost p0 = pending@;
//@at loop0.end
proof { step_lemma(c0, *current, *next, p0, dist_to_box@, self.dim as nat, self.d, point@);
  if dist_to_box@ <= radius@ { assert(pending@.drop_last() =~= p0); } else { within_far(keys(*next, self.d, point@), radius@); }
  within_add(keys(*current, self.d, point@), keys(*next, self.d, point@), radius@);
  within_add(pkeys(p0, self.d, point@), keys(*next, self.d, point@), radius@); }
//@at loop0.post
proof { let a = within(pkeys(pending@, self.d, point@), radius@); let b = within(keys(*current, self.d, point@), radius@);
  assert(a.add(b).len() == a.len() + b.len()); nodes_pos(*current); assert(within(Multiset::empty(), radius@) =~= Multiset::empty()); }
//@loop 1
invariant 0 <= __i1 <= __n1 == current.data@.len(), leaf(*current), __acc1 == within(keysl(current.data@, self.d, point@, __i1 as nat), radius@).len(),
  keys(*current, self.d, point@) == keysl(current.data@, self.d, point@, current.data@.len()), current.d == self.d, wf(*current, self.dim as nat, self.d),
  within(keys(*current, self.d, point@), radius@).len() <= u32::MAX,
decreases __n1 - __i1
//@at loop1.end
proof { let k = (sdist(self.d, element.row_vec@, point@), element.item); let m = keysl(current.data@, self.d, point@, (__i1 - 1) as nat);
  assert(within(m.insert(k), radius@) =~= if k.0 <= radius@ { within(m, radius@).insert(k) } else { within(m, radius@) }); }
//@at loop1.start
proof { keysl_mono(current.data@, self.d, point@, (__i1 + 1) as nat, current.data@.len(), radius@);
  let element = current.data@[__i1 as int]; let k = (sdist(self.d, element.row_vec@, point@), element.item); let m = keysl(current.data@, self.d, point@, __i1 as nat);
  assert(within(m.insert(k), radius@) =~= if k.0 <= radius@ { within(m, radius@).insert(k) } else { within(m, radius@) }); }
//@end
}
// ---------------------------------------------------------------- k nearest
impl OwnedKDT {
//@fn path=OwnedKDT::update_top_k file=arkadia/kdt.rs
//@spec
requires k >= 1, nbok(old(top_k)@, k as nat, max_dist_bound@), current_max@ == (if old(top_k)@.len() < k { max_dist_bound@ } else { old(top_k)@.last().dist@ })
ensures knnstep(old(top_k)@, final(top_k)@, keysl(self.data@, self.d, point@, self.data@.len()), k as nat, max_dist_bound@, 0real)
//@closure 0
-> (b: bool) ensures b == (s.dist@ <= dist@)
//@loop 0
invariant 0 <= __i0 <= __n0 == self.data@.len(), k >= 1, cur_max@ >= current_max@,
  current_max@ == (if old(top_k)@.len() < k { max_dist_bound@ } else { old(top_k)@.last().dist@ }),
  knnstep(old(top_k)@, top_k@, keysl(self.data@, self.d, point@, __i0 as nat), k as nat, max_dist_bound@, 0real),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(keysl(self.data@, self.d, point@, 0) =~= Multiset::empty()); knn_none(top_k@, k as nat, max_dist_bound@, 0real); }
//@at loop0.start
let ghost t0 = top_k@; let ghost m0 = keysl(self.data@, self.d, point@, __i0 as nat); let ghost mut ins = false;
proof { knn_facts(old(top_k)@, t0, m0, k as nat, max_dist_bound@, 0real); }
//@at set.cur_max.0
proof { ins = true; insert_step(t0, top_k@, NB { dist: dist, item: element.item }, k as nat, max_dist_bound@, idx as int); }
//@at loop0.end
proof { let key = (dist@, element.item); let one = Multiset::empty().insert(key);
  assert(m0.insert(key) =~= m0.add(one));
  if !ins { skip_step(old(top_k)@, t0, one, k as nat, max_dist_bound@, key, m0, cur_max@, current_max@); }
  knn_trans(old(top_k)@, t0, top_k@, m0, one, k as nat, max_dist_bound@, 0real); }
//@end
}
pub open spec fn sorted(t: Seq<NB>) -> bool { forall|i: int, j: int| 0 <= i <= j < t.len() ==> (#[trigger] t[i]).dist@ <= (#[trigger] t[j]).dist@ }
pub open spec fn nbok(t: Seq<NB>, k: nat, bound: real) -> bool { sorted(t) && t.len() <= k && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).dist@ <= bound }
// a point may be left out only if it is beyond the bound, or k points at most as far (up to eps) were kept
pub open spec fn skipok(x: Key, t: Seq<NB>, k: nat, bound: real, eps: real) -> bool { x.0 + eps > bound || (t.len() == k && x.0 + eps >= t.last().dist@) }
// t1 is the list of the k nearest of t0's points and the points `seen`
#[verifier::opaque]
pub open spec fn knnstep(t0: Seq<NB>, t1: Seq<NB>, seen: Multiset<Key>, k: nat, bound: real, eps: real) -> bool {
  nbok(t1, k, bound) && t0.len() <= t1.len() && (t0.len() == k && k > 0 ==> t1.last().dist@ <= t0.last().dist@)
  && nbm(t1).subset_of(nbm(t0).add(seen))
  && forall|x: Key| #[trigger] nbm(t0).add(seen).count(x) > nbm(t1).count(x) ==> skipok(x, t1, k, bound, eps) }
proof fn knn_facts(t0: Seq<NB>, t1: Seq<NB>, a: Multiset<Key>, k: nat, bound: real, eps: real)
  requires knnstep(t0, t1, a, k, bound, eps) ensures nbok(t1, k, bound), t0.len() <= t1.len(), t0.len() == k && k > 0 ==> t1.last().dist@ <= t0.last().dist@ { reveal(knnstep); }
proof fn knn_none(t: Seq<NB>, k: nat, bound: real, eps: real) requires nbok(t, k, bound) ensures knnstep(t, t, Multiset::empty(), k, bound, eps) { reveal(knnstep); assert(nbm(t).add(Multiset::empty()) =~= nbm(t)); }
proof fn knn_trans(t0: Seq<NB>, t1: Seq<NB>, t2: Seq<NB>, a: Multiset<Key>, b: Multiset<Key>, k: nat, bound: real, eps: real)
  requires knnstep(t0, t1, a, k, bound, eps), knnstep(t1, t2, b, k, bound, eps), k > 0 ensures knnstep(t0, t2, a.add(b), k, bound, eps) { reveal(knnstep);
  let ab = a.add(b);
  assert forall|x: Key| #[trigger] nbm(t0).add(ab).count(x) > nbm(t2).count(x) implies skipok(x, t2, k, bound, eps) by {
    assert(nbm(t0).add(a).count(x) == nbm(t0).count(x) + a.count(x)); assert(nbm(t1).add(b).count(x) == nbm(t1).count(x) + b.count(x));
    if nbm(t0).add(a).count(x) > nbm(t1).count(x) { assert(skipok(x, t1, k, bound, eps)); } }
  assert forall|x: Key| nbm(t2).count(x) <= #[trigger] nbm(t0).add(ab).count(x) by {
    assert(nbm(t0).add(a).count(x) == nbm(t0).count(x) + a.count(x)); assert(nbm(t1).add(b).count(x) == nbm(t1).count(x) + b.count(x)); } }
proof fn skip_step(o: Seq<NB>, t: Seq<NB>, one: Multiset<Key>, k: nat, bound: real, key: Key, seen: Multiset<Key>, cm: real, c0: real)
  requires knnstep(o, t, seen, k, bound, 0real), k > 0, one == Multiset::<Key>::empty().insert(key), key.0 > bound || (key.0 >= cm && t.len() == k), cm >= c0,
    c0 == (if o.len() < k { bound } else { o.last().dist@ })
  ensures knnstep(t, t, one, k, bound, 0real) { reveal(knnstep);
  if t.len() == k { assert(t[k - 1].dist@ <= bound); }
  assert(skipok(key, t, k, bound, 0real));
  assert forall|x: Key| #[trigger] nbm(t).add(one).count(x) > nbm(t).count(x) implies skipok(x, t, k, bound, 0real) by { } }
proof fn nbm_insert(t: Seq<NB>, c: int, x: NB) requires 0 <= c <= t.len() ensures nbm(t.insert(c, x)) =~= nbm(t).insert((x.dist@, x.item)) decreases t.len() {
  let u = t.insert(c, x);
  if c == t.len() { assert(u.drop_last() =~= t); } else { assert(u.drop_last() =~= t.drop_last().insert(c, x)); nbm_insert(t.drop_last(), c, x); } }
proof fn insert_step(t0: Seq<NB>, t1: Seq<NB>, x: NB, k: nat, bound: real, c: int)
  requires nbok(t0, k, bound), x.dist@ <= bound, k > 0, 0 <= c <= t0.len(),
    forall|i: int| 0 <= i < c ==> (#[trigger] t0[i]).dist@ <= x.dist@, forall|i: int| c <= i < t0.len() ==> (#[trigger] t0[i]).dist@ > x.dist@,
    t1 == (if t0.len() < k { t0.insert(c, x) } else { t0.insert(c, x).drop_last() }), 
  ensures knnstep(t0, t1, Multiset::<Key>::empty().insert((x.dist@, x.item)), k, bound, 0real) { reveal(knnstep);
  let u = t0.insert(c, x); let one = Multiset::<Key>::empty().insert((x.dist@, x.item));
  nbm_insert(t0, c, x); assert(nbm(t0).add(one) =~= nbm(u)); assert(sorted(u));
  if t0.len() < k { } else {
    let y = u.last(); assert(u.drop_last() == t1); assert(nbm(u) == nbm(t1).insert((y.dist@, y.item)));
    assert(t1.last() == u[k - 1]); assert(sorted(t1));
    assert forall|z: Key| #[trigger] nbm(t0).add(one).count(z) > nbm(t1).count(z) implies skipok(z, t1, k, bound, 0real) by { assert(z == (y.dist@, y.item)); }
    if c < t0.len() { } } }
// one step of the descent: the popped node's points are split between the two children
proof fn step_lemma(c0: OwnedKDT, c: OwnedKDT, nx: OwnedKDT, p0: Pend, b: real, dim: nat, d: DIST, q: Seq<R>)
  requires wf(c0, dim, d), !leaf(c0), q.len() == dim, b == sbox(d, nx.bounds@, q, dim),
    (c == *c0.left->0 && nx == *c0.right->0) || (c == *c0.right->0 && nx == *c0.left->0)
  ensures wf(c, dim, d), wf(nx, dim, d), lower(nx, d, q, b), keys(c0, d, q) =~= keys(c, d, q).add(keys(nx, d, q)), nodes(c0) == 1 + nodes(c) + nodes(nx) {
  assert(wf(nx, dim, d)); assert(wf(c, dim, d)); allin_lower(nx, nx.bounds@, dim, d, q); }
proof fn keysl_mono(s: Seq<OwnedLeaf>, d: DIST, q: Seq<R>, i: nat, n: nat, r: real) requires i <= n ensures within(keysl(s, d, q, i), r).len() <= within(keysl(s, d, q, n), r).len() decreases n {
  if i < n { keysl_mono(s, d, q, i, (n - 1) as nat, r); let k = (sdist(d, s[n - 1].row_vec@, q), s[n - 1].item); let m = keysl(s, d, q, (n - 1) as nat);
    assert(within(m.insert(k), r) =~= if k.0 <= r { within(m, r).insert(k) } else { within(m, r) }); } }

proof fn knn_eps(t0: Seq<NB>, t1: Seq<NB>, a: Multiset<Key>, k: nat, bound: real, eps: real)
  requires knnstep(t0, t1, a, k, bound, 0real), eps >= 0real ensures knnstep(t0, t1, a, k, bound, eps) { reveal(knnstep);
  assert forall|x: Key| #[trigger] nbm(t0).add(a).count(x) > nbm(t1).count(x) implies skipok(x, t1, k, bound, eps) by { assert(skipok(x, t1, k, bound, 0real)); } }
proof fn knn_drop(t: Seq<NB>, dropped: Multiset<Key>, k: nat, bound: real, eps: real, cm: real)
  requires nbok(t, k, bound), k > 0, cm == (if t.len() < k { bound } else { t.last().dist@ }), forall|x: Key| #[trigger] dropped.count(x) > 0 ==> x.0 + eps > cm
  ensures knnstep(t, t, dropped, k, bound, eps) { reveal(knnstep);
  assert forall|x: Key| #[trigger] nbm(t).add(dropped).count(x) > nbm(t).count(x) implies skipok(x, t, k, bound, eps) by { assert(dropped.count(x) > 0); } }
impl OwnedKDT {
//@fn path=OwnedKDT::knn_one_step file=arkadia/kdt.rs
//@spec
requires old(pending)@.len() > 0, self.dim == point@.len(), pok(old(pending)@, self.dim as nat, self.d, point@), k >= 1, epsilon@ >= 0real,
  nbok(old(top_k)@, k as nat, max_dist_bound@)
ensures pok(final(pending)@, self.dim as nat, self.d, point@), pnodes(final(pending)@) < pnodes(old(pending)@),
  pkeys(final(pending)@, self.d, point@).subset_of(pkeys(old(pending)@, self.d, point@)),
  knnstep(old(top_k)@, final(top_k)@, pkeys(old(pending)@, self.d, point@).sub(pkeys(final(pending)@, self.d, point@)), k as nat, max_dist_bound@, epsilon@),
//@at fn.start
let ghost mut dropped: Multiset<Key> = Multiset::empty();
proof { let p = old(pending)@; nodes_pos(*p.last().1); }
//@at before.return.0
proof { let gone = pkeys(old(pending)@, self.d, point@).sub(pkeys(pending@, self.d, point@)); assert(gone =~= keys(*tree, self.d, point@));
  knn_drop(old(top_k)@, gone, k as nat, max_dist_bound@, epsilon@, current_max@); }
//@at let.next.2
proof { assert(wf(*next, self.dim as nat, self.d)); assert(wf(*current, self.dim as nat, self.d)); }
//@loop 0
invariant self.dim == point@.len(), wf(*current, self.dim as nat, self.d), pok(pending@, self.dim as nat, self.d, point@),
  *top_k == *old(top_k), current_max@ == (if old(top_k)@.len() < k { max_dist_bound@ } else { old(top_k)@.last().dist@ }),
  pnodes(pending@) + nodes(*current) <= pnodes(old(pending)@),
  pkeys(pending@, self.d, point@).add(keys(*current, self.d, point@)).add(dropped) =~= pkeys(old(pending)@, self.d, point@),
  forall|x: Key| #[trigger] dropped.count(x) > 0 ==> x.0 + epsilon@ > current_max@,
decreases nodes(*current)
//@at loop0.start
let ghost c0 = *current; let ghost p0 = pending@; let ghost d0 = dropped;
//@at loop0.end
proof { step_lemma(c0, *current, *next, p0, dist_to_box@, self.dim as nat, self.d, point@);
  if dist_to_box@ + epsilon@ <= current_max@ { assert(pending@.drop_last() =~= p0); } else { dropped = d0.add(keys(*next, self.d, point@)); 
    assert forall|x: Key| #[trigger] dropped.count(x) > 0 implies x.0 + epsilon@ > current_max@ by { if d0.count(x) == 0 { assert(keys(*next, self.d, point@).count(x) > 0); } } } }
//@at loop0.post
proof { nodes_pos(*current); }
//@at call.update_top_k.0
proof { let ks = keys(*current, self.d, point@); let (b, kk) = (max_dist_bound@, k as nat);
  knn_drop(old(top_k)@, dropped, kk, b, epsilon@, current_max@);
  assert(ks == keysl(current.data@, current.d, point@, current.data@.len()));
  knn_eps(old(top_k)@, top_k@, ks, kk, b, epsilon@);
  knn_trans(old(top_k)@, old(top_k)@, top_k@, dropped, ks, kk, b, epsilon@);
  assert(pkeys(old(pending)@, self.d, point@).sub(pkeys(pending@, self.d, point@)) =~= dropped.add(ks)); }
//@end
}
// ---------------------------------------------------------------- the searches
proof fn sdist_nonneg(d: DIST, a: Seq<R>, b: Seq<R>) ensures sdist(d, a, b) >= 0real {
  let n = if a.len() < b.len() { a.len() } else { b.len() }; l2_nonneg(a, b, n); rsqrt_def(l2s(a, b, n)); l1_nonneg(a, b, n); }
proof fn l1_nonneg(a: Seq<R>, b: Seq<R>, n: nat) ensures l1s(a, b, n) >= 0real, lis(a, b, n) >= 0real decreases n { if n > 0 { l1_nonneg(a, b, (n - 1) as nat); } }
proof fn keysl_nonneg(s: Seq<OwnedLeaf>, d: DIST, q: Seq<R>, n: nat, k: Key) requires n <= s.len(), keysl(s, d, q, n).count(k) > 0 ensures k.0 >= 0real decreases n {
  if n > 0 { sdist_nonneg(d, s[n - 1].row_vec@, q); if k != (sdist(d, s[n - 1].row_vec@, q), s[n - 1].item) { keysl_nonneg(s, d, q, (n - 1) as nat, k); } } }
proof fn keys_nonneg(t: OwnedKDT, d: DIST, q: Seq<R>, k: Key) requires keys(t, d, q).count(k) > 0 ensures k.0 >= 0real decreases t {
  if t.left is None || t.right is None { keysl_nonneg(t.data@, d, q, t.data@.len(), k); }
  else if keys(*t.left->0, d, q).count(k) > 0 { keys_nonneg(*t.left->0, d, q, k); } else { keys_nonneg(*t.right->0, d, q, k); } }
proof fn pending_one(t: &OwnedKDT, d: DIST, q: Seq<R>, p: Pend, b: R)
  requires p =~= seq![(b, t)], b@ <= 0real, wf(*t, t.dim as nat, d) ensures pkeys(p, d, q) =~= keys(*t, d, q), pok(p, t.dim as nat, d, q) {
  assert(p.drop_last() =~= Seq::empty()); assert(pkeys(p.drop_last(), d, q) =~= Multiset::empty());
  assert(lower(*t, d, q, b@)) by { assert forall|k: Key| #[trigger] keys(*t, d, q).count(k) > 0 implies b@ <= k.0 by { keys_nonneg(*t, d, q, k); } } }
impl NB {
//@fn path=NB::cmp file=arkadia/neighbor.rs ret=r
//@sig pub fn cmp(&self, other: &NB) -> (r: core::cmp::Ordering)
//@spec
ensures r == (if self.dist@ < other.dist@ { core::cmp::Ordering::Less } else if self.dist@ == other.dist@ { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
//@end
}
// trusted: Vec::sort_unstable permutes and sorts by the Ord of NB (NB::cmp above: by distance)
pub trait VxSortNB : Sized { fn sort_unstable(&mut self) ensures true; }
impl VxSortNB for Vec<NB> {
  #[verifier::external_body]
  fn sort_unstable(&mut self) ensures final(self)@.len() == old(self)@.len(), nbm(final(self)@) == nbm(old(self)@), sorted(final(self)@) { unimplemented!() } }
impl OwnedKDT {
  pub fn dim(&self) -> (r: usize) ensures r == self.dim { self.dim }
//@fn path=SpatialQueries::within file=arkadia/mod.rs ret=r
//@spec
requires wf(*self, self.dim as nat, self.d), self.dim == point@.len()
ensures r is None <==> radius@ <= EPSV(),
  r is Some ==> nbm(r->0@) =~= within(keys(*self, self.d, point@), radius@) && (sort ==> sorted(r->0@)),
//@loop 0
invariant __i0 <= __n0 == point@.len(), !__acc0,
decreases __n0 - __i0
//@at loop1.pre
proof { maxv_pos(); pending_one(self, self.d, point@, pending@, pending@[0].0); }
//@loop 1
invariant wf(*self, self.dim as nat, self.d), self.dim == point@.len(), pok(pending@, self.dim as nat, self.d, point@),
  nbm(neighbors@).add(within(pkeys(pending@, self.d, point@), radius@)) =~= within(keys(*self, self.d, point@), radius@),
decreases pnodes(pending@)
//@at loop1.post
proof { assert(nbm(neighbors@).add(within(Multiset::empty(), radius@)) =~= nbm(neighbors@)); }
//@end
//@fn path=SpatialQueries::within_count file=arkadia/mod.rs ret=r
//@spec
requires wf(*self, self.dim as nat, self.d), self.dim == point@.len(), within(keys(*self, self.d, point@), radius@).len() <= u32::MAX
ensures r is None <==> radius@ <= EPSV(), r is Some ==> r->0 == within(keys(*self, self.d, point@), radius@).len()
//@loop 0
invariant __i0 <= __n0 == point@.len(), !__acc0,
decreases __n0 - __i0
//@at loop1.pre
proof { maxv_pos(); pending_one(self, self.d, point@, pending@, pending@[0].0); }
//@loop 1
invariant wf(*self, self.dim as nat, self.d), self.dim == point@.len(), pok(pending@, self.dim as nat, self.d, point@),
  within(keys(*self, self.d, point@), radius@).len() <= u32::MAX,
  cnt + within(pkeys(pending@, self.d, point@), radius@).len() == within(keys(*self, self.d, point@), radius@).len(),
decreases pnodes(pending@)
//@at loop1.post
proof { assert(within(Multiset::empty(), radius@) =~= Multiset::empty()); }
//@end
//@fn path=SpatialQueries::knn file=arkadia/mod.rs ret=r
//@spec
requires wf(*self, self.dim as nat, self.d), epsilon@ >= 0real, k < usize::MAX
ensures r is None <==> k == 0 || point@.len() != self.dim,
  r is Some ==> knnstep(Seq::empty(), r->0@, keys(*self, self.d, point@), k as nat, MAXV(), epsilon@),
//@loop 0
invariant __i0 <= __n0 == point@.len(), !__acc0,
decreases __n0 - __i0
//@at loop1.pre
proof { maxv_pos(); pending_one(self, self.d, point@, pending@, pending@[0].0); let all = keys(*self, self.d, point@);
  assert(nbok(top_k@, k as nat, MAXV())); knn_none(top_k@, k as nat, MAXV(), epsilon@); assert(all.sub(pkeys(pending@, self.d, point@)) =~= Multiset::empty()); }
//@loop 1
invariant wf(*self, self.dim as nat, self.d), self.dim == point@.len(), pok(pending@, self.dim as nat, self.d, point@), k > 0, epsilon@ >= 0real,
  pkeys(pending@, self.d, point@).subset_of(keys(*self, self.d, point@)),
  knnstep(Seq::empty(), top_k@, keys(*self, self.d, point@).sub(pkeys(pending@, self.d, point@)), k as nat, MAXV(), epsilon@),
decreases pnodes(pending@)
//@at loop1.start
let ghost t0 = top_k@; let ghost m0 = pkeys(pending@, self.d, point@); proof { knn_facts(Seq::empty(), t0, keys(*self, self.d, point@).sub(m0), k as nat, MAXV(), epsilon@); }
//@at loop1.end
proof { let all = keys(*self, self.d, point@); let m1 = pkeys(pending@, self.d, point@);
  knn_trans(Seq::empty(), t0, top_k@, all.sub(m0), m0.sub(m1), k as nat, MAXV(), epsilon@); assert(all.sub(m0).add(m0.sub(m1)) =~= all.sub(m1)); }
//@at loop1.post
proof { assert(keys(*self, self.d, point@).sub(Multiset::empty()) =~= keys(*self, self.d, point@)); }
//@end
//@fn path=SpatialQueries::knn_bounded file=arkadia/mod.rs ret=r
//@spec
requires wf(*self, self.dim as nat, self.d), epsilon@ >= 0real, k < usize::MAX
ensures r is None <==> k == 0 || point@.len() != self.dim || max_dist_bound@ <= EPSV(),
  r is Some ==> knnstep(Seq::empty(), r->0@, keys(*self, self.d, point@), k as nat, max_dist_bound@, epsilon@),
//@loop 0
invariant __i0 <= __n0 == point@.len(), !__acc0,
decreases __n0 - __i0
//@at loop1.pre
proof { maxv_pos(); pending_one(self, self.d, point@, pending@, pending@[0].0); let all = keys(*self, self.d, point@);
  assert(nbok(top_k@, k as nat, max_dist_bound@)); knn_none(top_k@, k as nat, max_dist_bound@, epsilon@); assert(all.sub(pkeys(pending@, self.d, point@)) =~= Multiset::empty()); }
//@loop 1
invariant wf(*self, self.dim as nat, self.d), self.dim == point@.len(), pok(pending@, self.dim as nat, self.d, point@), k > 0, epsilon@ >= 0real,
  pkeys(pending@, self.d, point@).subset_of(keys(*self, self.d, point@)),
  knnstep(Seq::empty(), top_k@, keys(*self, self.d, point@).sub(pkeys(pending@, self.d, point@)), k as nat, max_dist_bound@, epsilon@),
decreases pnodes(pending@)
//@at loop1.start
let ghost t0 = top_k@; let ghost m0 = pkeys(pending@, self.d, point@); proof { knn_facts(Seq::empty(), t0, keys(*self, self.d, point@).sub(m0), k as nat, max_dist_bound@, epsilon@); }
//@at loop1.end
proof { let all = keys(*self, self.d, point@); let m1 = pkeys(pending@, self.d, point@);
  knn_trans(Seq::empty(), t0, top_k@, all.sub(m0), m0.sub(m1), k as nat, max_dist_bound@, epsilon@); assert(all.sub(m0).add(m0.sub(m1)) =~= all.sub(m1)); }
//@at loop1.post
proof { assert(keys(*self, self.d, point@).sub(Multiset::empty()) =~= keys(*self, self.d, point@)); }
//@end
//@fn path=SpatialQueries::knn_bounded_unchecked file=arkadia/mod.rs ret=r
//@spec
requires wf(*self, self.dim as nat, self.d), epsilon@ >= 0real, 0 < k < usize::MAX, self.dim == point@.len()
ensures knnstep(Seq::empty(), r@, keys(*self, self.d, point@), k as nat, max_dist_bound@, epsilon@),
//@at loop0.pre
proof { maxv_pos(); pending_one(self, self.d, point@, pending@, pending@[0].0); let all = keys(*self, self.d, point@);
  assert(nbok(top_k@, k as nat, max_dist_bound@)); knn_none(top_k@, k as nat, max_dist_bound@, epsilon@); assert(all.sub(pkeys(pending@, self.d, point@)) =~= Multiset::empty()); }
//@loop 0
invariant wf(*self, self.dim as nat, self.d), self.dim == point@.len(), pok(pending@, self.dim as nat, self.d, point@), k > 0, epsilon@ >= 0real,
  pkeys(pending@, self.d, point@).subset_of(keys(*self, self.d, point@)),
  knnstep(Seq::empty(), top_k@, keys(*self, self.d, point@).sub(pkeys(pending@, self.d, point@)), k as nat, max_dist_bound@, epsilon@),
decreases pnodes(pending@)
//@at loop0.start
let ghost t0 = top_k@; let ghost m0 = pkeys(pending@, self.d, point@); proof { knn_facts(Seq::empty(), t0, keys(*self, self.d, point@).sub(m0), k as nat, max_dist_bound@, epsilon@); }
//@at loop0.end
proof { let all = keys(*self, self.d, point@); let m1 = pkeys(pending@, self.d, point@);
  knn_trans(Seq::empty(), t0, top_k@, all.sub(m0), m0.sub(m1), k as nat, max_dist_bound@, epsilon@); assert(all.sub(m0).add(m0.sub(m1)) =~= all.sub(m1)); }
//@at loop0.post
proof { assert(keys(*self, self.d, point@).sub(Multiset::empty()) =~= keys(*self, self.d, point@)); }
//@end
}

// ---------------------------------------------------------------- building the tree
pub open spec fn rowsok(s: Seq<OwnedLeaf>, dim: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).row_vec@.len() == dim }
pub open spec fn boxok(s: Seq<OwnedLeaf>, b: Seq<R>, dim: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> inbox((#[trigger] s[i]).row_vec@, b, dim) }
pub open spec fn height(t: OwnedKDT) -> nat decreases t {
  1 + (match (t.left, t.right) { (Some(l), Some(r)) => if height(*l) < height(*r) { height(*r) } else { height(*l) }, _ => 0 }) }
pub open spec fn wider(a: Seq<R>, b: Seq<R>, dim: nat) -> bool { forall|i: int| 0 <= i < dim ==> #[trigger] wd(a, b, dim, i) }
pub open spec fn wd(a: Seq<R>, b: Seq<R>, dim: nat, i: int) -> bool { b[i]@ <= a[i]@ && a[i + dim]@ <= b[i + dim]@ }
pub open spec fn boxed(l: Seq<R>, b: Seq<R>, b0: Seq<R>, dim: nat, n: int) -> bool {
  forall|i: int| 0 <= i < dim ==> #[trigger] bx(l, b, b0, dim, n, i) }
pub open spec fn bx(l: Seq<R>, b: Seq<R>, b0: Seq<R>, dim: nat, n: int, i: int) -> bool {
  b[i]@ == (if i < n { rmin(b0[i]@, l[i]@) } else { b0[i]@ }) && b[i + dim]@ == (if i < n { rmax(b0[i + dim]@, l[i]@) } else { b0[i + dim]@ }) }
proof fn boxed_step(l: Seq<R>, b0: Seq<R>, b: Seq<R>, c: Seq<R>, dim: nat, n: int)
  requires 0 <= n < dim, b.len() == 2 * dim, c.len() == 2 * dim, boxed(l, b, b0, dim, n), forall|j: int| 0 <= j < 2 * dim && j != n && j != n + dim ==> c[j] == #[trigger] b[j],
    c[n]@ == rmin(b[n]@, l[n]@), c[n + dim]@ == rmax(b[n + dim]@, l[n]@)
  ensures boxed(l, c, b0, dim, n + 1) {
  assert forall|i: int| 0 <= i < dim implies #[trigger] bx(l, c, b0, dim, n + 1, i) by { assert(bx(l, b, b0, dim, n, i)); assert(b[i] == c[i] || i == n); assert(b[i + dim] == c[i + dim] || i == n); } }
proof fn boxed_done(l: Seq<R>, b0: Seq<R>, b: Seq<R>, dim: nat) requires l.len() == dim, boxed(l, b, b0, dim, dim as int) ensures wider(b0, b, dim), inbox(l, b, dim) {
  assert forall|i: int| 0 <= i < dim implies #[trigger] wd(b0, b, dim, i) by { assert(bx(l, b, b0, dim, dim as int, i)); }
  assert forall|i: int| 0 <= i < dim implies #[trigger] ib(l, b, dim, i) by { assert(bx(l, b, b0, dim, dim as int, i)); } }
proof fn allin_wider(t: OwnedKDT, a: Seq<R>, b: Seq<R>, dim: nat) requires allin(t, a, dim), wider(a, b, dim) ensures allin(t, b, dim) decreases t {
  if t.left is None || t.right is None { assert forall|i: int| 0 <= i < t.data@.len() implies inbox((#[trigger] t.data@[i]).row_vec@, b, dim) by { let x = t.data@[i].row_vec@; assert(inbox(x, a, dim));
      assert forall|j: int| 0 <= j < dim implies #[trigger] ib(x, b, dim, j) by { assert(ib(x, a, dim, j)); assert(wd(a, b, dim, j)); } } }
  else { allin_wider(*t.left->0, a, b, dim); allin_wider(*t.right->0, a, b, dim); } }
// a leaf's keys do not depend on the order of its points
proof fn keysl_ext(a: Seq<OwnedLeaf>, b: Seq<OwnedLeaf>, d: DIST, q: Seq<R>, n: nat) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures keysl(a, d, q, n) == keysl(b, d, q, n) decreases n { if n > 0 { keysl_ext(a, b, d, q, (n - 1) as nat); } }
proof fn keysl_remove(s: Seq<OwnedLeaf>, i: int, d: DIST, q: Seq<R>)
  requires 0 <= i < s.len() ensures keysl(s, d, q, s.len()) =~= keysl(s.remove(i), d, q, (s.len() - 1) as nat).insert((sdist(d, s[i].row_vec@, q), s[i].item)) decreases s.len() {
  let n = s.len();
  if i == n - 1 { keysl_ext(s, s.remove(i), d, q, (n - 1) as nat); }
  else { let u = s.drop_last(); keysl_remove(u, i, d, q); keysl_ext(s, u, d, q, (n - 1) as nat); let w = s.remove(i);
    keysl_ext(w, u.remove(i), d, q, (n - 2) as nat); assert(w[n - 2] == s[n - 1]); } }
proof fn keysl_perm(a: Seq<OwnedLeaf>, b: Seq<OwnedLeaf>, d: DIST, q: Seq<R>) requires a.to_multiset() == b.to_multiset() ensures keysl(a, d, q, a.len()) =~= keysl(b, d, q, b.len()) decreases a.len() {
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
  if a.len() > 0 { let x = a.last(); assert(a.to_multiset().count(x) > 0) by { assert(a[a.len() - 1] == x); assert(a.contains(x)); }
    assert(b.contains(x)); let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
    assert(a.remove(a.len() - 1).to_multiset() =~= b.remove(j).to_multiset()); keysl_perm(a.remove(a.len() - 1), b.remove(j), d, q);
    keysl_remove(a, a.len() - 1, d, q); keysl_remove(b, j, d, q); } }
proof fn keysl_split(s: Seq<OwnedLeaf>, c: int, d: DIST, q: Seq<R>) requires 0 <= c <= s.len()
  ensures keysl(s, d, q, s.len()) =~= keysl(s.take(c), d, q, c as nat).add(keysl(s.skip(c), d, q, (s.len() - c) as nat)) decreases s.len() - c {
  if c == s.len() { assert(s.take(c) =~= s); } else {
    keysl_split(s.drop_last(), c, d, q); let u = s.drop_last(); keysl_ext(s, u, d, q, (s.len() - 1) as nat); assert(u.take(c) =~= s.take(c)); assert(u.skip(c) =~= s.skip(c).drop_last());
    keysl_ext(s.skip(c), u.skip(c), d, q, (s.len() - 1 - c) as nat); assert(s.skip(c)[s.len() - 1 - c] == s[s.len() - 1]); } }
proof fn perm_in(a: Seq<OwnedLeaf>, b: Seq<OwnedLeaf>, i: int) -> (j: int) requires a.to_multiset() == b.to_multiset(), 0 <= i < b.len() ensures 0 <= j < a.len(), a[j] == b[i] {
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); choose|j: int| 0 <= j < a.len() && a[j] == b[i] }
proof fn box_perm(a: Seq<OwnedLeaf>, b: Seq<OwnedLeaf>, dim: nat) requires a.to_multiset() == b.to_multiset(), rowsok(a, dim) ensures rowsok(b, dim), forall|x: Seq<R>| boxok(a, x, dim) ==> #[trigger] boxok(b, x, dim) {
  assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).row_vec@.len() == dim by { let j = perm_in(a, b, i); assert(a[j].row_vec@.len() == dim); }
  assert forall|x: Seq<R>| boxok(a, x, dim) implies #[trigger] boxok(b, x, dim) by {
    assert forall|i: int| 0 <= i < b.len() implies inbox((#[trigger] b[i]).row_vec@, x, dim) by { let j = perm_in(a, b, i); assert(inbox(a[j].row_vec@, x, dim)); } } }
proof fn split_done(s0: Seq<OwnedLeaf>, nd: Seq<OwnedLeaf>, c: int, t: OwnedKDT, dim: nat, d: DIST)
  requires nd.to_multiset() == s0.to_multiset(), rowsok(s0, dim), 0 <= c <= nd.len(), t.left is Some, t.right is Some, leaf(*t.left->0), leaf(*t.right->0), (*t.left->0).data@ == nd.take(c), (*t.right->0).data@ == nd.skip(c)
  ensures forall|b: Seq<R>| boxok(s0, b, dim) ==> #[trigger] allin(t, b, dim), forall|q: Seq<R>| #[trigger] keys(t, d, q) =~= keysl(s0, d, q, s0.len()) {
  let l = *t.left->0; let r = *t.right->0; box_perm(s0, nd, dim);
  assert forall|b: Seq<R>| boxok(s0, b, dim) implies #[trigger] allin(t, b, dim) by { assert(boxok(nd, b, dim));
    assert forall|i: int| 0 <= i < l.data@.len() implies inbox((#[trigger] l.data@[i]).row_vec@, b, dim) by { assert(inbox(nd[i].row_vec@, b, dim)); }
    assert forall|i: int| 0 <= i < r.data@.len() implies inbox((#[trigger] r.data@[i]).row_vec@, b, dim) by { assert(inbox(nd[i + c].row_vec@, b, dim)); }
    assert(allin(l, b, dim)); assert(allin(r, b, dim)); }
  assert forall|q: Seq<R>| #[trigger] keys(t, d, q) =~= keysl(s0, d, q, s0.len()) by { keysl_perm(nd, s0, d, q); keysl_split(nd, c, d, q); assert(keys(l, d, q) == keysl(nd.take(c), d, q, c as nat)); assert(keys(r, d, q) == keysl(nd.skip(c), d, q, (nd.len() - c) as nat)); } }
impl OwnedKDT {
//@fn path=OwnedKDT::find_bounds file=arkadia/kdt.rs ret=r
//@methods extend=>&mut vx_extend
//@calls std::iter::repeat=>vx_repeat
//@spec
requires rowsok(data@, dim as nat), 2 * dim <= usize::MAX ensures r@.len() == 2 * dim, boxok(data@, r@, dim as nat)
//@loop 0
invariant 0 <= __i0 <= __n0 == data@.len(), rowsok(data@, dim as nat), 2 * dim <= usize::MAX, bounds@.len() == 2 * dim, boxok(data@.take(__i0 as int), bounds@, dim as nat),
decreases __n0 - __i0
//@at loop0.start
let ghost b0 = bounds@; let ghost k0 = __i0;
//@loop 1
invariant 0 <= __i1 <= __n1 == dim, 2 * dim <= usize::MAX, bounds@.len() == 2 * dim, elem.row_vec@.len() == dim, b0.len() == 2 * dim, boxed(elem.row_vec@, bounds@, b0, dim as nat, __i1 as int),
decreases __n1 - __i1
//@at loop1.start
let ghost c0 = bounds@; proof { assert(c0.len() <= usize::MAX); }
//@at loop1.end
proof { boxed_step(elem.row_vec@, b0, c0, bounds@, dim as nat, __i1 - 1); }
//@at loop0.end
proof { let t = data@.take(__i0 as int); assert(elem == t[k0 as int]);
  assert forall|i: int| 0 <= i < t.len() implies inbox((#[trigger] t[i]).row_vec@, bounds@, dim as nat) by { let x = t[i].row_vec@;
    assert(data@[i].row_vec@.len() == dim);
    if i < k0 { assert(data@.take(k0 as int)[i] == t[i]); assert(inbox(x, b0, dim as nat)); }
    assert forall|j: int| 0 <= j < dim implies #[trigger] ib(x, bounds@, dim as nat, j) by { if i < k0 { assert(ib(x, b0, dim as nat, j)); } assert(bx(elem.row_vec@, bounds@, b0, dim as nat, dim as int, j)); } } }
//@at loop0.post
proof { assert(data@.take(data@.len() as int) =~= data@); }
//@end
//@fn path=OwnedKDT::new_empty file=arkadia/kdt.rs ret=r
//@methods extend=>&mut vx_extend
//@calls std::iter::repeat=>vx_repeat
//@spec
requires 2 * dim <= usize::MAX
ensures wf(r, dim as nat, d), leaf(r), r.data@.len() == 0, r.dim == dim, r.d == d, height(r) == 1, r.capacity == capacity
//@end
//@fn path=OwnedKDT::grow_new_leaf file=arkadia/kdt.rs ret=r
//@spec
requires rowsok(data@, self.dim as nat), 2 * self.dim <= usize::MAX
ensures wf(r, self.dim as nat, self.d), leaf(r), r.data@ == data@, height(r) == 1
//@end
//@fn path=OwnedKDT::update_bounds file=arkadia/kdt.rs
//@spec
requires leaf.row_vec@.len() == old(self).dim, old(self).bounds@.len() == 2 * old(self).dim
ensures final(self).bounds@.len() == 2 * old(self).dim, boxed(leaf.row_vec@, final(self).bounds@, old(self).bounds@, old(self).dim as nat, old(self).dim as int),
  final(self).dim == old(self).dim, final(self).capacity == old(self).capacity, final(self).left == old(self).left, final(self).right == old(self).right, final(self).data == old(self).data, final(self).d == old(self).d,
  final(self).split_axis == old(self).split_axis, final(self).split_axis_value == old(self).split_axis_value
//@loop 0
invariant 0 <= __i0 <= __n0 == self.dim, leaf.row_vec@.len() == self.dim, self.bounds@.len() == 2 * self.dim, boxed(leaf.row_vec@, self.bounds@, old(self).bounds@, self.dim as nat, __i0 as int),
  self.dim == old(self).dim, self.capacity == old(self).capacity, self.left == old(self).left, self.right == old(self).right, self.data == old(self).data, self.d == old(self).d,
  self.split_axis == old(self).split_axis, self.split_axis_value == old(self).split_axis_value,
decreases __n0 - __i0
//@at loop0.start
let ghost c0 = self.bounds@; let ghost c0v = self.bounds; proof { vx_vec_len(&c0v); }
//@at loop0.end
proof { boxed_step(leaf.row_vec@, old(self).bounds@, c0, self.bounds@, self.dim as nat, __i0 - 1); }
//@end
//@fn path=OwnedKDT::update_and_push file=arkadia/kdt.rs
//@spec
requires leaf.row_vec@.len() == old(self).dim, old(self).bounds@.len() == 2 * old(self).dim
ensures final(self).bounds@.len() == 2 * old(self).dim, boxed(leaf.row_vec@, final(self).bounds@, old(self).bounds@, old(self).dim as nat, old(self).dim as int),
  final(self).dim == old(self).dim, final(self).capacity == old(self).capacity, final(self).left == old(self).left, final(self).right == old(self).right, final(self).data@ == old(self).data@.push(leaf), final(self).d == old(self).d
//@loop 0
invariant 0 <= __i0 <= __n0 == self.dim, leaf.row_vec@.len() == self.dim, self.bounds@.len() == 2 * self.dim, boxed(leaf.row_vec@, self.bounds@, old(self).bounds@, self.dim as nat, __i0 as int),
  self.dim == old(self).dim, self.capacity == old(self).capacity, self.left == old(self).left, self.right == old(self).right, self.data == old(self).data, self.d == old(self).d,
decreases __n0 - __i0
//@at loop0.start
let ghost c0 = self.bounds@; let ghost c0v = self.bounds; proof { vx_vec_len(&c0v); }
//@at loop0.end
proof { boxed_step(leaf.row_vec@, old(self).bounds@, c0, self.bounds@, self.dim as nat, __i0 - 1); }
//@end
//@fn path=OwnedKDT::add_unchecked file=arkadia/kdt.rs
//@methods to_vec=>vx_to_vec
//@spec
requires wf(*old(self), old(self).dim as nat, old(self).d), leaf.row_vec@.len() == old(self).dim, old(self).dim > 0, depth + height(*old(self)) < usize::MAX,
ensures final(self).dim == old(self).dim, final(self).d == old(self).d, wf(*final(self), old(self).dim as nat, old(self).d), height(*final(self)) <= height(*old(self)) + 1,
  forall|q: Seq<R>| #[trigger] keys(*final(self), old(self).d, q) =~= keys(*old(self), old(self).d, q).insert((sdist(old(self).d, leaf.row_vec@, q), leaf.item)),
  forall|b: Seq<R>| allin(*old(self), b, old(self).dim as nat) && inbox(leaf.row_vec@, b, old(self).dim as nat) ==> #[trigger] allin(*final(self), b, old(self).dim as nat),
decreases *old(self)
//@closure 0
-> (b: bool) requires leaf.row_vec@.len() > axis ensures b == (leaf.row_vec@[axis as int]@ >= midpoint@)
//@closure 1
-> (b: bool) requires elem.row_vec@.len() > axis ensures b == (elem.row_vec@[axis as int]@ < midpoint@)
//@at fn.start
let ghost o = *old(self); let ghost d = o.d; let ghost dm = o.dim as nat; let ghost key = |q: Seq<R>| (sdist(d, leaf.row_vec@, q), leaf.item);
//@at call.update_and_push.0
let ghost m = *self; let ghost s0 = m.data@;
proof { boxed_done(leaf.row_vec@, o.bounds@, m.bounds@, dm); allin_wider(o, o.bounds@, m.bounds@, dm); 
  assert(s0.drop_last() =~= o.data@);
  assert forall|q: Seq<R>| keysl(s0, d, q, s0.len()) =~= #[trigger] keys(o, d, q).insert(key(q)) by { keysl_ext(s0, o.data@, d, q, o.data@.len()); }
  assert(allin(m, m.bounds@, dm)); assert(rowsok(s0, dm)); vx_vec_len(&m.bounds);
  assert forall|b: Seq<R>| allin(o, b, dm) && inbox(leaf.row_vec@, b, dm) implies #[trigger] boxok(s0, b, dm) by { assert forall|i: int| 0 <= i < s0.len() implies inbox((#[trigger] s0[i]).row_vec@, b, dm) by { if i < o.data@.len() { assert(inbox(o.data@[i].row_vec@, b, dm)); } } }
  assert(forall|b: Seq<R>| boxok(s0, b, dm) ==> #[trigger] allin(m, b, dm));
  assert forall|q: Seq<R>| #[trigger] keys(m, d, q) =~= keys(o, d, q).insert(key(q)) by { assert(keysl(s0, d, q, s0.len()) =~= keys(o, d, q).insert(key(q))); } }
//@at let.axis.0
proof { assert(new_data@ =~= s0); }
//@closure 2
-> (o: core::cmp::Ordering) requires l1.row_vec@.len() > axis, l2.row_vec@.len() > axis
//@at call.sort_unstable_by.0
proof { box_perm(s0, new_data@, dm); let n: usize = new_data@.len() as usize; assert(n > 0 ==> n >> 1usize < n) by(bit_vector); assert(n == new_data.len()); }
//@at call.sort_unstable_by_key.0
proof { box_perm(s0, new_data@, dm); }
//@at let.right.0
let ghost nd = new_data@; let ghost c = split_idx as int;
proof { assert forall|i: int| 0 <= i < left@.len() implies (#[trigger] left@[i]).row_vec@.len() == dm by { assert(nd[i].row_vec@.len() == dm); } 
  assert forall|i: int| 0 <= i < right@.len() implies (#[trigger] right@[i]).row_vec@.len() == dm by { assert(nd[i + c].row_vec@.len() == dm); } }
//@at set.data.0
proof { assert(nd.skip(0) =~= nd); assert(self.data@ == nd);
  assert forall|q: Seq<R>| #[trigger] keys(*self, d, q) =~= keys(o, d, q).insert(key(q)) by { keysl_perm(nd, s0, d, q); assert(keysl(s0, d, q, s0.len()) =~= keys(o, d, q).insert(key(q))); }
  assert forall|b: Seq<R>| boxok(s0, b, dm) implies #[trigger] allin(*self, b, dm) by { assert(boxok(nd, b, dm)); }
  assert(boxok(s0, m.bounds@, dm)); assert(wf(*self, dm, d)); }
//@at set.right.0
proof { split_done(s0, nd, c, *self, dm, d);
  assert forall|q: Seq<R>| #[trigger] keys(*self, d, q) =~= keys(o, d, q).insert(key(q)) by { assert(keysl(s0, d, q, s0.len()) =~= keys(o, d, q).insert(key(q))); }
  assert(boxok(s0, m.bounds@, dm)); assert(wf(*self, dm, d)); }
//@at call.update_bounds.0
proof { boxed_done(leaf.row_vec@, o.bounds@, self.bounds@, dm); allin_wider(*o.left->0, o.bounds@, self.bounds@, dm); allin_wider(*o.right->0, o.bounds@, self.bounds@, dm);
 assert(wf(*o.left->0, dm, d)); assert(wf(*o.right->0, dm, d)); }
//@at call.add_unchecked.0
proof { let (n, m) = (*self.left->0, *o.left->0); assert(self.right == o.right); assert(self.data@.len() == 0);
  assert forall|q: Seq<R>| #[trigger] keys(*self, d, q) =~= keys(o, d, q).insert(key(q)) by { assert(keys(n, d, q) =~= keys(m, d, q).insert(key(q))); }
  assert(allin(n, self.bounds@, dm));
  assert forall|b: Seq<R>| allin(o, b, dm) && inbox(leaf.row_vec@, b, dm) implies #[trigger] allin(*self, b, dm) by { assert(allin(n, b, dm)); }
  assert(wf(n, dm, d)); assert(wf(*self.right->0, dm, d)); assert(allin(*self, self.bounds@, dm)); assert(wf(*self, dm, d)); }
//@at call.add_unchecked.1
proof { let (n, m) = (*self.right->0, *o.right->0); assert(self.left == o.left); assert(self.data@.len() == 0);
  assert forall|q: Seq<R>| #[trigger] keys(*self, d, q) =~= keys(o, d, q).insert(key(q)) by { assert(keys(n, d, q) =~= keys(m, d, q).insert(key(q))); }
  assert(allin(n, self.bounds@, dm));
  assert forall|b: Seq<R>| allin(o, b, dm) && inbox(leaf.row_vec@, b, dm) implies #[trigger] allin(*self, b, dm) by { assert(allin(n, b, dm)); }
  assert(wf(n, dm, d)); assert(wf(*self.left->0, dm, d)); assert(allin(*self, self.bounds@, dm)); assert(wf(*self, dm, d)); }
//@end
//@fn path=OwnedKDT::from_leaves_unchecked own_iter=1 file=arkadia/kdt.rs ret=r
//@spec
requires data@.len() > 0, rowsok(data@, data@[0].row_vec@.len()), 0 < data@[0].row_vec@.len() <= usize::MAX / 2, data@.len() < usize::MAX - 1
ensures wf(r, data@[0].row_vec@.len(), d), r.dim == data@[0].row_vec@.len(), r.d == d, forall|q: Seq<R>| #[trigger] keys(r, d, q) =~= keysl(data@, d, q, data@.len())
//@loop 0
invariant 0 <= __i0 <= __n0 == data@.len(), rowsok(data@, dim as nat), wf(tree, dim as nat, d), tree.dim == dim, tree.d == d, dim > 0, height(tree) <= __i0 + 1, data@.len() < usize::MAX - 1,
  forall|q: Seq<R>| #[trigger] keys(tree, d, q) =~= keysl(data@, d, q, __i0 as nat),
decreases __n0 - __i0
//@end
}
//@fn path=suggest_capacity file=arkadia/utils.rs ret=r
//@spec
ensures r > 0
//@end
// ---------------------------------------------------------------- counting
pub open spec fn npts(t: OwnedKDT) -> nat decreases t { if t.left is None || t.right is None { t.data@.len() } else { npts(*t.left->0) + npts(*t.right->0) } }
pub open spec fn snpts(p: Seq<&OwnedKDT>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { snpts(p.drop_last()) + npts(*p.last()) } }
pub open spec fn snodes(p: Seq<&OwnedKDT>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { snodes(p.drop_last()) + nodes(*p.last()) } }
pub open spec fn sok(p: Seq<&OwnedKDT>, dim: nat, d: DIST) -> bool { forall|i: int| 0 <= i < p.len() ==> wf(*#[trigger] p[i], dim, d) }
proof fn keysl_len(s: Seq<OwnedLeaf>, d: DIST, q: Seq<R>, n: nat) ensures keysl(s, d, q, n).len() == n decreases n { if n > 0 { keysl_len(s, d, q, (n - 1) as nat); } }
// the number of points is the number of (distance, item) pairs a query sees
proof fn npts_keys(t: OwnedKDT, d: DIST, q: Seq<R>) ensures npts(t) == keys(t, d, q).len() decreases t {
  if t.left is None || t.right is None { keysl_len(t.data@, d, q, t.data@.len()); } else { npts_keys(*t.left->0, d, q); npts_keys(*t.right->0, d, q); } }
impl OwnedKDT {
//@fn path=OwnedKDT::count file=arkadia/kdt.rs ret=r
//@spec
ensures r == self.data@.len()
//@end
//@fn path=OwnedKDT::count_all file=arkadia/kdt.rs ret=r
//@spec
requires wf(*self, self.dim as nat, self.d), npts(*self) <= usize::MAX
ensures r == npts(*self)
//@loop 0
invariant sok(stack@, self.dim as nat, self.d), answer + snpts(stack@) == npts(*self), npts(*self) <= usize::MAX
decreases snodes(stack@)
//@at let.stack.0
proof { let s = stack@; assert(s.last() == self); assert(s.drop_last() =~= Seq::empty()); assert(snpts(s.drop_last()) == 0); assert(snpts(s) == npts(*self)); }
//@at loop0.start
let ghost st0 = stack@;
//@at let.top.0
proof { assert(wf(*top, self.dim as nat, self.d)); assert(stack@ =~= st0.drop_last()); assert(sok(stack@, self.dim as nat, self.d)); if !leaf(*top) { assert(wf(*top.left->0, self.dim as nat, self.d)); assert(wf(*top.right->0, self.dim as nat, self.d)); } }
//@at call.push.1
proof { let (l, r) = (&*top.left->0, &*top.right->0); let s1 = st0.drop_last(); let s2 = stack@.drop_last(); assert(stack@.last() == r); assert(s2.last() == l); assert(s2.drop_last() =~= s1); assert(snodes(stack@) == snodes(s2) + nodes(*r)); assert(snodes(s2) == snodes(s1) + nodes(*l)); assert(snpts(stack@) == snpts(s2) + npts(*r)); assert(snpts(s2) == snpts(s1) + npts(*l)); assert(st0.last() == top); assert(npts(*top) == npts(*l) + npts(*r)); assert(nodes(*top) == 1 + nodes(*l) + nodes(*r)); }
//@end
}
}
fn main(){}
