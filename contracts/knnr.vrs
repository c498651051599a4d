//@include prelude_real.rs
//@default types=T:R,f64:R,A:R strip=R,NB methods=into=>vx_into
verus!{
#[verifier::external_body] fn vx_into(x: R) -> (r: R) ensures r@ == x@ { unimplemented!() }
//@struct path=NB file=arkadia/neighbor.rs
impl Copy for NB {}
impl Clone for NB { #[verifier::external_body] fn clone(&self) -> (r: NB) ensures r == *self { unimplemented!() } }
impl NB {
//@fn path=NB::to_item file=arkadia/neighbor.rs ret=r
//@spec
ensures r == self.item
//@end
}
//@enum path=KNNMethod file=arkadia/mod.rs
impl KNNMethod {
//@fn path=KNNMethod::new file=arkadia/mod.rs ret=r
//@spec
ensures r == (if !weighted { KNNMethod::NotWeighted } else if min_dist@ <= EPSV() { KNNMethod::P1Weighted } else { KNNMethod::Weighted })
//@end
}
// the query is proved in kdt.vrs; here only its result is named
pub struct Tree { pub x: usize }
pub uninterp spec fn near(t: Tree, k: usize, p: Seq<R>, hi: real) -> Option<Seq<NB>>;
pub open spec fn wt(how: KNNMethod, d: real) -> real { match how { KNNMethod::P1Weighted => 1real / (1real + d), KNNMethod::Weighted => 1real / d, KNNMethod::NotWeighted => 1real } }
pub open spec fn kept(s: Seq<NB>, lo: real, n: int) -> Seq<NB> decreases n { if n <= 0 { Seq::empty() } else { let p = kept(s, lo, n - 1); if s[n - 1].dist@ >= lo { p.push(s[n - 1]) } else { p } } }
pub open spec fn num(s: Seq<NB>, how: KNNMethod, n: int) -> real decreases n { if n <= 0 { 0real } else { num(s, how, n - 1) + wt(how, s[n - 1].dist@) * s[n - 1].item@ } }
pub open spec fn den(s: Seq<NB>, how: KNNMethod, n: int) -> real decreases n { if n <= 0 { 0real } else { den(s, how, n - 1) + wt(how, s[n - 1].dist@) } }
pub open spec fn far(s: Seq<NB>, lo: real) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).dist@ >= lo && s[i].dist@ >= 0real }
proof fn den_pos(s: Seq<NB>, how: KNNMethod, n: int) requires 0 <= n <= s.len(), far(s, 0real), how == KNNMethod::Weighted ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).dist@ > 0real
  ensures n > 0 ==> den(s, how, n) > 0real, den(s, how, n) >= 0real, how == KNNMethod::NotWeighted ==> den(s, how, n) == n as real decreases n
{ if n > 0 { den_pos(s, how, n - 1); let d = s[n - 1].dist@; assert(d >= 0real); assert(1real / (1real + d) > 0real) by(nonlinear_arith) requires d >= 0real; if d > 0real { assert(1real / d > 0real) by(nonlinear_arith) requires d > 0real; } } }
impl Tree {
  #[verifier::external_body] fn knn_bounded(&self, k: usize, point: &[R], max_dist_bound: R, epsilon: R) -> (r: Option<Vec<NB>>) requires epsilon@ == 0real
    ensures match r { Some(v) => near(*self, k, point@, max_dist_bound@) == Some(v@) && far(v@, 0real), None => near(*self, k, point@, max_dist_bound@) is None } { unimplemented!() }
//@fn path=KNNRegressor::knn_regress file=arkadia/mod.rs ret=r
//@letty __acc0 Vec<NB>
//@letty __acc1 Vec<R>
//@letty __acc4 Vec<R>
//@spec
requires how == KNNMethod::Weighted ==> min_dist_bound@ > 0real
ensures match near(*self, k, point@, max_dist_bound@) { None => r is None, Some(s) => { let f = kept(s, min_dist_bound@, s.len() as int); let n = f.len() as int;
  if n == 0 { r is None } else { r is Some && r->0@ == num(f, how, n) / den(f, how, n) } } }
//@closure 0
-> (o: Vec<NB>) requires far(nn@, 0real) ensures o@ == kept(nn@, min_dist_bound@, nn@.len() as int), far(o@, min_dist_bound@)
//@loop 0
invariant __i0 <= __n0, __n0 == nn.len(), __acc0@ == kept(nn@, min_dist_bound@, __i0 as int), far(nn@, 0real), far(__acc0@, min_dist_bound@),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == nn.len(), __acc1.len() == __i1, far(nn@, min_dist_bound@), forall|i: int| 0 <= i < __i1 ==> (#[trigger] __acc1@[i])@ == wt(how, nn@[i].dist@), how == KNNMethod::P1Weighted,
decreases __n1 - __i1
//@loop 2
invariant __i2 <= __n2, __n2 == nn.len(), weights.len() == nn.len(), __acc2@ == den(nn@, how, __i2 as int), forall|i: int| 0 <= i < __n2 ==> (#[trigger] weights@[i])@ == wt(how, nn@[i].dist@),
decreases __n2 - __i2
//@at let.sum.0
proof { den_pos(nn@, how, nn.len() as int); }
//@loop 3
invariant __i3 <= __n3, __n3 == nn.len(), weights.len() == nn.len(), __acc3@ == num(nn@, how, __i3 as int), forall|i: int| 0 <= i < __n3 ==> (#[trigger] weights@[i])@ == wt(how, nn@[i].dist@),
decreases __n3 - __i3
//@loop 4
invariant __i4 <= __n4, __n4 == nn.len(), __acc4.len() == __i4, far(nn@, min_dist_bound@), min_dist_bound@ > 0real, forall|i: int| 0 <= i < __i4 ==> (#[trigger] __acc4@[i])@ == wt(how, nn@[i].dist@), how == KNNMethod::Weighted,
decreases __n4 - __i4
//@loop 5
invariant __i5 <= __n5, __n5 == nn.len(), weights.len() == nn.len(), __acc5@ == den(nn@, how, __i5 as int), forall|i: int| 0 <= i < __n5 ==> (#[trigger] weights@[i])@ == wt(how, nn@[i].dist@),
decreases __n5 - __i5
//@at let.sum.1
proof { den_pos(nn@, how, nn.len() as int); }
//@loop 6
invariant __i6 <= __n6, __n6 == nn.len(), weights.len() == nn.len(), __acc6@ == num(nn@, how, __i6 as int), forall|i: int| 0 <= i < __n6 ==> (#[trigger] weights@[i])@ == wt(how, nn@[i].dist@),
decreases __n6 - __i6
//@at let.n.0
proof { den_pos(nn@, how, nn.len() as int); }
//@loop 7
invariant __i7 <= __n7, __n7 == nn.len(), __acc7@ == num(nn@, how, __i7 as int), how == KNNMethod::NotWeighted,
decreases __n7 - __i7
//@end
}
}
fn main(){}
