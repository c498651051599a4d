use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Div, Neg};
verus! {

// ---- trusted arithmetic: floating-point numbers are read as mathematical reals (no NaN, no rounding, no overflow) ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl R { pub uninterp spec fn v(self) -> real; }
// where a NaN is told apart; its value as a number is arbitrary
pub uninterp spec fn nanp(x: R) -> bool;
impl View for R { type V = real; open spec fn view(&self) -> real { self.v() } }
// two numbers with the same value are the same number
pub axiom fn r_ext(a: R, b: R) requires a@ == b@ ensures a == b;
pub uninterp spec fn MAXV() -> real;
pub axiom fn maxv_pos() ensures MAXV() > 0real;
pub uninterp spec fn EPSV() -> real;
pub axiom fn epsv_pos() ensures EPSV() > 0real;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a <= b { b } else { a } }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub uninterp spec fn rsqrt(x: real) -> real;
pub axiom fn rsqrt_def(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
impl Add for R { type Output = R;
  #[verifier::external_body]
  fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for R {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: R) -> bool { true }
  open spec fn add_spec(self, rhs: R) -> R { arbitrary() }
}
impl Sub for R { type Output = R;
  #[verifier::external_body]
  fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for R {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: R) -> bool { true }
  open spec fn sub_spec(self, rhs: R) -> R { arbitrary() }
}
impl Mul for R { type Output = R;
  #[verifier::external_body]
  fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for R {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> R { arbitrary() }
}
impl Div for R { type Output = R;
  #[verifier::external_body]
  fn div(self, o: R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for R {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: R) -> bool { rhs@ != 0real }
  open spec fn div_spec(self, rhs: R) -> R { arbitrary() }
}
impl Neg for R { type Output = R;
  #[verifier::external_body]
  fn neg(self) -> (r: R) ensures r@ == -self@ { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for R {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> R { arbitrary() }
}
impl<'b> Add<&'b R> for R { type Output = R;
  #[verifier::external_body]
  fn add(self, o: &'b R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b R> for R {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b R) -> bool { true }
  open spec fn add_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'a> Add<R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<R> for &'a R {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: R) -> bool { true }
  open spec fn add_spec(self, rhs: R) -> R { arbitrary() }
}
impl<'a,'b> Add<&'b R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn add(self, o: &'b R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::AddSpecImpl<&'b R> for &'a R {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b R) -> bool { true }
  open spec fn add_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'b> Sub<&'b R> for R { type Output = R;
  #[verifier::external_body]
  fn sub(self, o: &'b R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b R> for R {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b R) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'a> Sub<R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<R> for &'a R {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: R) -> bool { true }
  open spec fn sub_spec(self, rhs: R) -> R { arbitrary() }
}
impl<'a,'b> Sub<&'b R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn sub(self, o: &'b R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::SubSpecImpl<&'b R> for &'a R {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b R) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'b> Mul<&'b R> for R { type Output = R;
  #[verifier::external_body]
  fn mul(self, o: &'b R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b R> for R {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: &'b R) -> bool { true }
  open spec fn mul_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'a> Mul<R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<R> for &'a R {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> R { arbitrary() }
}
impl<'a,'b> Mul<&'b R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn mul(self, o: &'b R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::MulSpecImpl<&'b R> for &'a R {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: &'b R) -> bool { true }
  open spec fn mul_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'b> Div<&'b R> for R { type Output = R;
  #[verifier::external_body]
  fn div(self, o: &'b R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b R> for R {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: &'b R) -> bool { rhs@ != 0real }
  open spec fn div_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl<'a> Div<R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn div(self, o: R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<R> for &'a R {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: R) -> bool { rhs@ != 0real }
  open spec fn div_spec(self, rhs: R) -> R { arbitrary() }
}
impl<'a,'b> Div<&'b R> for &'a R { type Output = R;
  #[verifier::external_body]
  fn div(self, o: &'b R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::DivSpecImpl<&'b R> for &'a R {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: &'b R) -> bool { rhs@ != 0real }
  open spec fn div_spec(self, rhs: &'b R) -> R { arbitrary() }
}
impl core::cmp::PartialEq for R {
  #[verifier::external_body]
  fn eq(&self, o: &R) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
impl core::cmp::PartialOrd for R {
  #[verifier::external_body]
  fn partial_cmp(&self, o: &R) -> (r: Option<core::cmp::Ordering>)
    ensures r == Some(if self@ < o@ { core::cmp::Ordering::Less } else if self@ == o@ { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) { unimplemented!() }
  #[verifier::external_body]
  fn lt(&self, o: &R) -> (r: bool) ensures r == (self@ < o@) { unimplemented!() }
  #[verifier::external_body]
  fn le(&self, o: &R) -> (r: bool) ensures r == (self@ <= o@) { unimplemented!() }
  #[verifier::external_body]
  fn gt(&self, o: &R) -> (r: bool) ensures r == (self@ > o@) { unimplemented!() }
  #[verifier::external_body]
  fn ge(&self, o: &R) -> (r: bool) ensures r == (self@ >= o@) { unimplemented!() }
}
impl R {
  #[verifier::external_body] pub fn max_value() -> (r: R)  ensures r@ == MAXV() { unimplemented!() }
  #[verifier::external_body] pub fn min_value() -> (r: R)  ensures r@ == -MAXV() { unimplemented!() }
  #[verifier::external_body] pub fn zero() -> (r: R)  ensures r@ == 0real { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: R)  ensures r@ == 1real { unimplemented!() }
  #[verifier::external_body] pub fn epsilon() -> (r: R)  ensures r@ == EPSV() { unimplemented!() }
  #[verifier::external_body] pub fn c_MAX() -> (r: R)  ensures r@ == MAXV() { unimplemented!() }
  #[verifier::external_body] pub fn c_MIN() -> (r: R)  ensures r@ == -MAXV() { unimplemented!() }
  #[verifier::external_body] pub fn c_EPSILON() -> (r: R)  ensures r@ == EPSV() { unimplemented!() }
  #[verifier::external_body] pub fn nan() -> (r: R)  ensures nanp(r) { unimplemented!() }
  #[verifier::external_body] pub fn c_NAN() -> (r: R)  ensures nanp(r) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: R) -> (r: R)  ensures r@ == rmin(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn max(self, o: R) -> (r: R)  ensures r@ == rmax(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: R)  ensures r@ == rabs(self@) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: R) requires self@ >= 0real ensures r@ == rsqrt(self@) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, n: i32) -> (r: R) requires n >= 0 ensures r@ == rpow(self@, n as nat), n == 2 ==> r@ == self@ * self@, n == 3 ==> r@ == self@ * self@ * self@, n == 4 ==> r@ == self@ * self@ * self@ * self@ { unimplemented!() }
  #[verifier::external_body] pub fn ln(self) -> (r: R) requires self@ > 0real ensures r@ == rln(self@) { unimplemented!() }
  #[verifier::external_body] pub fn exp(self) -> (r: R)  ensures r@ == rexp(self@) { unimplemented!() }
  #[verifier::external_body] pub fn mul_add(self, a: R, b: R) -> (r: R)  ensures r@ == self@ * a@ + b@ { unimplemented!() }
  #[verifier::external_body] pub fn recip(self) -> (r: R) requires self@ != 0real ensures r@ == 1real / self@ { unimplemented!() }
  #[verifier::external_body] pub fn signum(self) -> (r: R)  ensures r@ == (if self@ < 0real { -1real } else { 1real }) { unimplemented!() }
  #[verifier::external_body] pub fn cmp(&self, o: &R) -> (r: core::cmp::Ordering)
    ensures r == (if self@ < o@ { core::cmp::Ordering::Less } else if self@ == o@ { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r { unimplemented!() }
  #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures !r { unimplemented!() }
  #[verifier::external_body] pub fn clamp(self, lo: R, hi: R) -> (r: R) requires lo@ <= hi@ ensures r@ == rmin(rmax(self@, lo@), hi@) { unimplemented!() }
}
pub trait VxToR { spec fn as_real(self) -> real; }
impl VxToR for usize { open spec fn as_real(self) -> real { self as int as real } }
impl VxToR for u32 { open spec fn as_real(self) -> real { self as int as real } }
impl VxToR for i32 { open spec fn as_real(self) -> real { self as int as real } }
impl VxToR for u64 { open spec fn as_real(self) -> real { self as int as real } }
impl VxToR for i64 { open spec fn as_real(self) -> real { self as int as real } }
impl VxToR for bool { open spec fn as_real(self) -> real { if self { 1real } else { 0real } } }
impl VxToR for R { open spec fn as_real(self) -> real { self@ } }
#[verifier::external_body] pub fn vx_to_r<A: VxToR>(a: A) -> (r: R) ensures r@ == a.as_real() { unimplemented!() }
//@LITERALS

// ---- slices ----
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
#[verifier::external_body] pub fn vx_subslice<'s, A>(x: &'s [A], a: usize, b: usize) -> (r: &'s [A])
  requires a <= b <= x.len() ensures r@ == x@.subrange(a as int, b as int) { &x[a..b] }
}
