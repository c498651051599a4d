//@include prelude_real.rs
//@default types=f64:R,f32:R4,PolarsNumericType:Num strip=zzz parcols=1
verus!{
// ---- trusted: columns of each numeric type, read as columns of optional numbers (a conversion to a float type is exact) ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct R4 { x: f32 }
pub uninterp spec fn r4v(x: R4) -> real;
pub trait Num: Sized { spec fn rv(self) -> real; }
impl Num for u8 { open spec fn rv(self) -> real { self as real } }
impl Num for u16 { open spec fn rv(self) -> real { self as real } }
impl Num for u32 { open spec fn rv(self) -> real { self as real } }
impl Num for u64 { open spec fn rv(self) -> real { self as real } }
impl Num for i8 { open spec fn rv(self) -> real { self as real } }
impl Num for i16 { open spec fn rv(self) -> real { self as real } }
impl Num for i32 { open spec fn rv(self) -> real { self as real } }
impl Num for i64 { open spec fn rv(self) -> real { self as real } }
impl Num for R { open spec fn rv(self) -> real { self@ } }
impl Num for R4 { open spec fn rv(self) -> real { r4v(self) } }
pub struct Name { pub x: usize }
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Name) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_name() -> Name { unimplemented!() }
pub enum DataType { UInt8, UInt16, UInt32, UInt64, Int8, Int16, Int32, Int64, Float32, Float64, String, Boolean }
impl DataType { #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == whole(*self) { unimplemented!() } }
impl PartialEq for DataType { #[verifier::external_body] fn eq(&self, o: &DataType) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DataType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DataType) -> bool { *self == *o } }
pub open spec fn whole(t: DataType) -> bool { t is UInt8 || t is UInt16 || t is UInt32 || t is UInt64 || t is Int8 || t is Int16 || t is Int32 || t is Int64 }
pub open spec fn numeric(t: DataType) -> bool { whole(t) || t is Float32 || t is Float64 }
pub enum PolarsError { ShapeMismatch(Name), ComputeError(Name) }
#[verifier::external] impl std::fmt::Debug for PolarsError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub type PolarsResult<T> = Result<T, PolarsError>;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Ca<T> { p: std::marker::PhantomData<T> }
impl<T> View for Ca<T> { type V = Seq<Option<T>>; uninterp spec fn view(&self) -> Seq<Option<T>>; }
pub type ChunkedArray<T> = Ca<T>;
pub type Int32Chunked = Ca<i32>;
pub type Float64Chunked = Ca<R>;
pub type Float32Chunked = Ca<R4>;
pub struct Series { pub x: usize }
pub uninterp spec fn dt(s: Series) -> DataType;
pub uninterp spec fn num(s: Series) -> Seq<Option<real>>;
pub open spec fn reads<T: Num>(c: Seq<Option<T>>, n: Seq<Option<real>>) -> bool { c.len() == n.len() && forall|i: int| #![trigger c[i]] #![trigger n[i]] 0 <= i < n.len() ==> (match c[i] { None => n[i] is None, Some(x) => n[i] == Some(x.rv()) }) }
impl Series {
  #[verifier::external_body] pub fn u8<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u8>>) ensures (r is Ok) == (dt(*self) is UInt8), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn u16<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u16>>) ensures (r is Ok) == (dt(*self) is UInt16), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn u32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u32>>) ensures (r is Ok) == (dt(*self) is UInt32), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn u64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u64>>) ensures (r is Ok) == (dt(*self) is UInt64), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn i8<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i8>>) ensures (r is Ok) == (dt(*self) is Int8), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn i16<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i16>>) ensures (r is Ok) == (dt(*self) is Int16), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn i32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i32>>) ensures (r is Ok) == (dt(*self) is Int32), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn i64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i64>>) ensures (r is Ok) == (dt(*self) is Int64), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn f32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R4>>) ensures (r is Ok) == (dt(*self) is Float32), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn f64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R>>) ensures (r is Ok) == (dt(*self) is Float64), r is Ok ==> reads(r->Ok_0@, num(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn dtype<'a>(&'a self) -> (r: &'a DataType) ensures *r == dt(*self) { unimplemented!() }
  #[verifier::external_body] pub fn cast(&self, t: &DataType) -> (r: PolarsResult<Series>) ensures numeric(dt(*self)) && (*t is Float32 || *t is Float64) ==> r is Ok && dt(r->Ok_0) == *t && num(r->Ok_0) == num(*self) { unimplemented!() }
}
pub trait Typed { spec fn ty() -> DataType; }
impl Typed for i32 { open spec fn ty() -> DataType { DataType::Int32 } }
impl Typed for R4 { open spec fn ty() -> DataType { DataType::Float32 } }
impl Typed for R { open spec fn ty() -> DataType { DataType::Float64 } }
// a function of each present value
pub open spec fn each<T, U, F: Fn(T) -> U>(a: Seq<Option<T>>, f: F, r: Seq<Option<U>>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (match a[i] { None => (#[trigger] r[i]) is None, Some(x) => r[i] is Some && f.ensures((x,), r[i]->0) }) }
pub open spec fn takes<T, U, F: Fn(T) -> U>(f: F) -> bool { forall|x: T| #[trigger] f.requires((x,)) }
impl<T: Num> Ca<T> {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn name(&self) -> (r: &Name) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<T>) ensures r == (if i < self@.len() { self@[i as int] } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn full_null(n: Name, len: usize) -> (r: Ca<T>) ensures r@ == Seq::new(len as nat, |i: int| None::<T>) { unimplemented!() }
  // every value is converted to the function's argument type
  #[verifier::external_body] pub fn cast_and_apply_in_place<U: Num, F: Fn(U) -> U>(&self, f: F) -> (r: Ca<U>) requires takes::<U, U, F>(f)
    ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (match self@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && exists|u: U| u.rv() == x.rv() && #[trigger] f.ensures((u,), r@[i]->0) }) { unimplemented!() }
  #[verifier::external_body] pub fn apply_values<F: Fn(T) -> T>(&self, f: F) -> (r: Ca<T>) requires takes::<T, T, F>(f) ensures each(self@, f, r@) { unimplemented!() }
  #[verifier::external_body] pub fn into_series(self) -> (r: Series) where T: Typed ensures dt(r) == T::ty(), reads(self@, num(r)) { unimplemented!() }
}
#[verifier::external_body] pub fn binary_elementwise_values<A, B, U, F: Fn(A, B) -> U>(a: &Ca<A>, b: &Ca<B>, f: F) -> (r: Ca<U>)
  requires a@.len() == b@.len(), forall|x: A, y: B| #[trigger] f.requires((x, y))
  ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> (if a@[i] is Some && b@[i] is Some { (#[trigger] r@[i]) is Some && f.ensures((a@[i]->0, b@[i]->0), r@[i]->0) } else { r@[i] is None }) { unimplemented!() }
// rows: missing where the input is, otherwise the function of the value
pub open spec fn rows(o: Seq<Option<real>>, s: Seq<Option<real>>, f: spec_fn(real) -> real) -> bool { o.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (match s[i] { None => (#[trigger] o[i]) is None, Some(x) => o[i] == Some(f(x)) }) }
// 32 bit results, except for 64 bit floats
pub open spec fn fty(t: DataType) -> DataType { if t is Float64 { DataType::Float64 } else { DataType::Float32 } }
// the functions of one number (logit, expit and xlogy are proved in scalar.vrs)
pub uninterp spec fn s_logit(x: real) -> real;
pub uninterp spec fn s_expit(x: real) -> real;
pub uninterp spec fn s_digamma(x: real) -> real;
pub uninterp spec fn s_xlogy(x: real, y: real) -> real;
#[verifier::external_body] pub fn logit<T: Num>(x: T) -> (r: T) ensures r.rv() == s_logit(x.rv()) { unimplemented!() }
#[verifier::external_body] pub fn expit<T: Num>(x: T) -> (r: T) ensures r.rv() == s_expit(x.rv()) { unimplemented!() }
#[verifier::external_body] pub fn xlogy<T: Num>(x: T, y: T) -> (r: T) ensures r.rv() == s_xlogy(x.rv(), y.rv()) { unimplemented!() }
#[verifier::external_body] pub fn digamma(x: R) -> (r: R) ensures r@ == s_digamma(x@) { unimplemented!() }
pub uninterp spec fn s_gamma(x: real, wide: bool) -> real;
pub uninterp spec fn s_exp2(x: real, wide: bool) -> real;
pub uninterp spec fn s_next_up(x: real, wide: bool) -> real;
pub uninterp spec fn s_next_down(x: real, wide: bool) -> real;
pub uninterp spec fn s_fract(x: real, wide: bool) -> real;
impl R {
  #[verifier::external_body] pub fn gamma(self) -> (r: R) ensures r.rv() == s_gamma(self.rv(), true) { unimplemented!() }
  #[verifier::external_body] pub fn exp2(self) -> (r: R) ensures r.rv() == s_exp2(self.rv(), true) { unimplemented!() }
  #[verifier::external_body] pub fn next_up(self) -> (r: R) ensures r.rv() == s_next_up(self.rv(), true) { unimplemented!() }
  #[verifier::external_body] pub fn next_down(self) -> (r: R) ensures r.rv() == s_next_down(self.rv(), true) { unimplemented!() }
  #[verifier::external_body] pub fn fract(self) -> (r: R) ensures r.rv() == s_fract(self.rv(), true) { unimplemented!() }
}
impl R4 {
  #[verifier::external_body] pub fn gamma(self) -> (r: R4) ensures r.rv() == s_gamma(self.rv(), false) { unimplemented!() }
  #[verifier::external_body] pub fn exp2(self) -> (r: R4) ensures r.rv() == s_exp2(self.rv(), false) { unimplemented!() }
  #[verifier::external_body] pub fn next_up(self) -> (r: R4) ensures r.rv() == s_next_up(self.rv(), false) { unimplemented!() }
  #[verifier::external_body] pub fn next_down(self) -> (r: R4) ensures r.rv() == s_next_down(self.rv(), false) { unimplemented!() }
  #[verifier::external_body] pub fn fract(self) -> (r: R4) ensures r.rv() == s_fract(self.rv(), false) { unimplemented!() }
}
//@fn file=num_ext/float_extras.rs path=cast_and_apply_logit ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_logit(x))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_logit ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == fty(dt(inputs[0])) && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_logit(x)) })
//@end
//@fn file=num_ext/float_extras.rs path=cast_and_apply_expit ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_expit(x))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_expit ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == fty(dt(inputs[0])) && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_expit(x)) })
//@end
//@fn file=num_ext/float_extras.rs path=cast_and_apply_gamma ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_gamma(x, false))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_gamma ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == fty(dt(inputs[0])) && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_gamma(x, w)) })
//@end
//@fn file=num_ext/float_extras.rs path=cast_and_apply_exp2 ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_exp2(x, false))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_exp2 ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == fty(dt(inputs[0])) && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_exp2(x, w)) })
//@end
//@fn file=num_ext/float_extras.rs path=cast_and_apply_next_up ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_next_up(x, false))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_next_up ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == fty(dt(inputs[0])) && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_next_up(x, w)) })
//@end
//@fn file=num_ext/float_extras.rs path=cast_and_apply_next_down ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_next_down(x, false))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_next_down ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == fty(dt(inputs[0])) && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_next_down(x, w)) })
//@end
//@fn file=num_ext/float_extras.rs path=cast_and_apply_diagamma ret=r
//@spec
ensures r@.len() == ca@.len(), forall|i: int| 0 <= i < ca@.len() ==> (match ca@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && r@[i]->0.rv() == (|x: real| s_digamma(x))(x.rv()) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_diagamma ret=r
//@spec
requires inputs.len() >= 1
ensures (r is Ok) == numeric(dt(inputs[0])), r is Ok ==> dt(r->Ok_0) == DataType::Float64 && ({ let w = dt(inputs[0]) is Float64; rows(num(r->Ok_0), num(inputs[0]), |x: real| s_digamma(x)) })
//@end
//@fn file=num_ext/float_extras.rs path=pl_xlogy ret=r
//@spec
requires inputs.len() >= 2, dt(inputs[0]) is Float64, dt(inputs[1]) is Float64, num(inputs[0]).len() == num(inputs[1]).len()
ensures r is Ok, dt(r->Ok_0) is Float64, ({ let (a, b, o) = (num(inputs[0]), num(inputs[1]), num(r->Ok_0)); o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] o[i]) == (if a[i] is Some && b[i] is Some { Some(s_xlogy(a[i]->0, b[i]->0)) } else { None }) })
//@end
pub mod num { pub mod integer { use vstd::prelude::*;
  pub uninterp spec fn s_gcd(a: int, b: int) -> int;
  pub uninterp spec fn s_lcm(a: int, b: int) -> int;
  #[verifier::external_body] pub fn gcd(a: i32, b: i32) -> (r: i32) ensures r == super::super::divisor(false, a as int, b as int) { unimplemented!() }
  #[verifier::external_body] pub fn lcm(a: i32, b: i32) -> (r: i32) ensures r == super::super::divisor(true, a as int, b as int) { unimplemented!() }
} }
pub open spec fn divisor(lcm: bool, x: int, z: int) -> int { if lcm { num::integer::s_lcm(x, z) } else { num::integer::s_gcd(x, z) } }
// the second column is as long as the first, or one value for all rows
pub open spec fn rows2(o: Seq<Option<real>>, a: Seq<Option<real>>, b: Seq<Option<real>>, lcm: bool) -> bool { o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> ({ let y = if b.len() == 1 { b[0] } else { b[i] }; match (a[i], y) { (Some(p), Some(q)) => exists|x: int, z: int| p == x as real && q == z as real && o[i] == Some((#[trigger] divisor(lcm, x, z)) as real), _ => (#[trigger] o[i]) is None } }) }
//@fn file=num_ext/gcd_lcm.rs path=pl_gcd ret=r
//@spec
requires inputs.len() >= 2, dt(inputs[0]) is Int32, dt(inputs[1]) is Int32
ensures (r is Ok) == (num(inputs[1]).len() == 1 || num(inputs[0]).len() == num(inputs[1]).len()), r is Ok ==> dt(r->Ok_0) is Int32 && rows2(num(r->Ok_0), num(inputs[0]), num(inputs[1]), false)
//@closure 0
-> (q: i32) ensures q == divisor(false, a as int, b as int)
//@end
//@fn file=num_ext/gcd_lcm.rs path=pl_lcm ret=r
//@spec
requires inputs.len() >= 2, dt(inputs[0]) is Int32, dt(inputs[1]) is Int32
ensures (r is Ok) == (num(inputs[1]).len() == 1 || num(inputs[0]).len() == num(inputs[1]).len()), r is Ok ==> dt(r->Ok_0) is Int32 && rows2(num(r->Ok_0), num(inputs[0]), num(inputs[1]), true)
//@closure 0
-> (q: i32) ensures q == divisor(true, a as int, b as int)
//@end
}
fn main(){}
