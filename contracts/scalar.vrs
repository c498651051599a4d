//@include prelude_real.rs
//@default types=T:R,f64:R strip=R methods=is_zero=>vx_is_zero,is_one=>vx_is_one
verus!{
#[verifier::external_body] fn vx_is_zero(x: R) -> (r: bool) ensures r == (x@ == 0real) { unimplemented!() }
#[verifier::external_body] fn vx_is_one(x: R) -> (r: bool) ensures r == (x@ == 1real) { unimplemented!() }
// the limits of the extended functions
pub uninterp spec fn MINF() -> real;
pub uninterp spec fn PINF() -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn ratan2(y: real, x: real) -> real;
pub uninterp spec fn PI() -> real;
pub axiom fn exp_pos(x: real) ensures rexp(x) > 0real;
pub axiom fn trig_sq(x: real) ensures rsin(x) * rsin(x) + rcos(x) * rcos(x) == 1real;
pub axiom fn trig_double(x: real) ensures rcos(2real * x) == 1real - 2real * (rsin(x) * rsin(x));
pub axiom fn trig_prod(x: real, y: real) ensures rcos(x) * rcos(y) == (rcos(x - y) + rcos(x + y)) / 2real;
pub axiom fn trig_odd(x: real) ensures rsin(-x) == -rsin(x), rcos(-x) == rcos(x);
pub axiom fn cos_quarter(x: real) requires -PI() / 2real <= x <= PI() / 2real ensures rcos(x) >= 0real;
pub axiom fn pi_pos() ensures PI() > 3real;
impl R {
  #[verifier::external_body] pub fn neg_infinity() -> (r: R) ensures r@ == MINF() { unimplemented!() }
  #[verifier::external_body] pub fn infinity() -> (r: R) ensures r@ == PINF() { unimplemented!() }
  #[verifier::external_body] pub fn from(x: R) -> (r: Option<R>) ensures r == Some(x) { unimplemented!() }
  #[verifier::external_body] pub fn sin(self) -> (r: R) ensures r@ == rsin(self@) { unimplemented!() }
  #[verifier::external_body] pub fn cos(self) -> (r: R) ensures r@ == rcos(self@) { unimplemented!() }
  #[verifier::external_body] pub fn atan2(self, x: R) -> (r: R) ensures r@ == ratan2(self@, x@) { unimplemented!() }
  #[verifier::external_body] pub fn to_radians(self) -> (r: R) ensures r@ == rad(self@) { unimplemented!() }
}
pub open spec fn rad(x: real) -> real { x * PI() / 180real }
//@fn file=num_ext/float_extras.rs path=logit ret=r
//@spec
ensures 0real < x@ < 1real ==> r@ == rln(x@ / (1real - x@)), x@ == 0real ==> r@ == MINF(), x@ == 1real ==> r@ == PINF()
//@at fn.start
proof { if 0real < x@ < 1real { let (a, b) = (x@, 1real - x@); assert(a / b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; } }
//@end
//@fn file=num_ext/float_extras.rs path=xlogy ret=r
//@spec
requires y@ > 0real
ensures r@ == x@ * rln(y@)
//@at fn.start
proof { if x@ == 0real { assert(x@ * rln(y@) == 0real) by(nonlinear_arith) requires x@ == 0real; } }
//@end
//@fn file=num_ext/float_extras.rs path=expit ret=r
//@spec
ensures r@ == 1real / (1real + rexp(-x@)), 0real < r@ < 1real
//@at fn.start
proof { exp_pos(-x@); let e = rexp(-x@); let q = 1real / (1real + e); assert(q * (1real + e) == 1real) by(nonlinear_arith) requires q == 1real / (1real + e), e > 0real;
  assert(0real < q < 1real) by(nonlinear_arith) requires q * (1real + e) == 1real, e > 0real; }
//@end
// ---- great-circle distance ----
pub open spec fn hav(x: real) -> real { rsin(x / 2real) * rsin(x / 2real) }
pub open spec fn chord(p1: real, l1: real, p2: real, l2: real) -> real { hav(rad(p2 - p1)) + hav(rad(l2 - l1)) * rcos(rad(p1)) * rcos(rad(p2)) }
pub open spec fn gcd(p1: real, l1: real, p2: real, l2: real) -> real { 6371real * (2real * ratan2(rsqrt(chord(p1, l1, p2, l2)), rsqrt(1real - chord(p1, l1, p2, l2)))) }
proof fn chord_unit(p1: real, l1: real, p2: real, l2: real) requires -90real <= p1 <= 90real, -90real <= p2 <= 90real ensures 0real <= chord(p1, l1, p2, l2) <= 1real
{ pi_pos(); let (a, b) = (rad(p1), rad(p2)); let p = PI();
  assert(-p / 2real <= a <= p / 2real) by(nonlinear_arith) requires a == p1 * p / 180real, p > 0real, -90real <= p1 <= 90real;
  assert(-p / 2real <= b <= p / 2real) by(nonlinear_arith) requires b == p2 * p / 180real, p > 0real, -90real <= p2 <= 90real;
  cos_quarter(a); cos_quarter(b); trig_prod(b, a); let d = rad(p2 - p1); assert(d == b - a) by(nonlinear_arith) requires d == (p2 - p1) * p / 180real, a == p1 * p / 180real, b == p2 * p / 180real;
  let h = d / 2real; trig_double(h); trig_sq(b + a); let (k, s) = (rcos(b + a), rsin(b + a)); assert(s * s >= 0real) by(nonlinear_arith); assert(k <= 1real) by(nonlinear_arith) requires k * k <= 1real;
  let m = rad(l2 - l1) / 2real; trig_sq(m); let (u, w) = (rsin(m), rcos(m)); assert(u * u >= 0real) by(nonlinear_arith); assert(w * w >= 0real) by(nonlinear_arith); assert(u * u <= 1real);
  let (x, y, z) = (u * u, rcos(a), rcos(b)); assert(y * z >= 0real) by(nonlinear_arith) requires y >= 0real, z >= 0real;
  assert(x * y * z <= y * z && x * y * z >= 0real) by(nonlinear_arith) requires 0real <= x <= 1real, y * z >= 0real, y >= 0real, z >= 0real;
  let q = rsin(h); assert(q * q >= 0real) by(nonlinear_arith); assert(z * y == y * z) by(nonlinear_arith); assert(d == 2real * h); }
// the distance does not depend on the direction
proof fn chord_sym(p1: real, l1: real, p2: real, l2: real) ensures chord(p1, l1, p2, l2) == chord(p2, l2, p1, l1)
{ let (a, b) = (rad(p2 - p1) / 2real, rad(l2 - l1) / 2real); trig_odd(a); trig_odd(b); let p = PI();
  assert(rad(p1 - p2) / 2real == -a) by(nonlinear_arith) requires a == ((p2 - p1) * p / 180real) / 2real, rad(p1 - p2) == (p1 - p2) * p / 180real;
  assert(rad(l1 - l2) / 2real == -b) by(nonlinear_arith) requires b == ((l2 - l1) * p / 180real) / 2real, rad(l1 - l2) == (l1 - l2) * p / 180real;
  let (u, w) = (rsin(a), rsin(b)); assert((-u) * (-u) == u * u) by(nonlinear_arith); assert((-w) * (-w) == w * w) by(nonlinear_arith);
  let (x, y, z) = (w * w, rcos(rad(p1)), rcos(rad(p2))); assert(x * y * z == x * z * y) by(nonlinear_arith); }
//@fn file=utils/mod.rs path=haversine_elementwise ret=r
//@spec
requires -90real <= start_lat@ <= 90real, -90real <= end_lat@ <= 90real
ensures r@ == gcd(start_lat@, start_long@, end_lat@, end_long@)
//@at fn.start
proof { chord_unit(start_lat@, start_long@, end_lat@, end_long@); }
//@end
//@fn file=utils/mod.rs path=haversine ret=r
//@spec
requires first.len() >= 2, second.len() >= 2, -90real <= first@[0]@ <= 90real, -90real <= second@[0]@ <= 90real
ensures r@ == gcd(first@[0]@, first@[1]@, second@[0]@, second@[1]@)
//@end
// ---- digamma: recurrence up to 12, then the asymptotic series ----
pub open spec fn rsum(x: real, k: int) -> real decreases k { if k <= 0 { 0real } else { rsum(x, k - 1) + 1real / (x + (k - 1) as int as real) } }
pub open spec fn asym(z: real) -> real { let r = 1real / z; let q = r * r; rln(z) - 0.5real * r - q * (1real / 12real - q * (1real / 120real - q * (1real / 252real - q * (1real / 240real - q * (1real / 132real))))) }
pub open spec fn dig(x: real, k: int, r: real) -> bool { k >= 0 && rsum(x, k) + r == asym(x + k as real) && x + k as real >= 12real && (k > 0 ==> (x + k as real) < 13real) }
//@fn file=stats_utils/gamma.rs path=digamma name=digamma_pos ret=res wrap_tail=1
//@sig fn digamma_pos(x: R, c: R, s3: R, s4: R, s5: R, s6: R, s7: R) -> (res: R)
//@from let mut result
//@spec
requires x@ > 0real, c@ == 12real, s3@ == 1real / 12real, s4@ == 1real / 120real, s5@ == 1real / 252real, s6@ == 1real / 240real, s7@ == 1real / 132real
ensures exists|k: int| (#[trigger] dig(x@, k, res@))
//@at let.z.0
let ghost mut k: int = 0;
//@loop 0
invariant k >= 0, z@ == x@ + k as real, result@ + rsum(x@, k) == 0real, x@ > 0real, c@ == 12real, k > 0 ==> z@ < 13real,
decreases 13 - k
//@at loop0.start
proof { k = k + 1; assert((k - 1) as real == k as real - 1real); }
//@at fn.end
proof { assert(dig(x@, k, __ret@)); }
//@end
}
fn main(){}
