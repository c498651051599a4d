//@soft
//@rlimit 15
//@include prelude_real.rs
//@default types=f64:R,f32:R4 strip=zzz parcols=1 hset=1
verus!{
// ---- trusted: a column, its values without the missing ones, and hash sets of them (a number is equal to itself, NaN included) ----
use DataType::*;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct R4 { x: f32 }
pub enum DataType { Int8, Int16, Int32, Int64, Int128, UInt8, UInt16, UInt32, UInt64, String, Float32, Float64, Boolean }
impl PartialEq for DataType { #[verifier::external_body] fn eq(&self, o: &DataType) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DataType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DataType) -> bool { *self == *o } }
pub open spec fn whole(t: DataType) -> bool { t is Int8 || t is Int16 || t is Int32 || t is Int64 || t is Int128 || t is UInt8 || t is UInt16 || t is UInt32 || t is UInt64 }
impl DataType { #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == whole(*self) { unimplemented!() } }
pub struct Name { pub x: usize }
#[verifier::external_body] pub fn vx_name() -> Name { unimplemented!() }
pub enum PolarsError { ComputeError(Name) }
#[verifier::external] impl std::fmt::Debug for PolarsError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub type PolarsResult<T> = Result<T, PolarsError>;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Ca<T> { p: std::marker::PhantomData<T> }
impl<T> View for Ca<T> { type V = Seq<Option<T>>; uninterp spec fn view(&self) -> Seq<Option<T>>; }
pub type StringChunked = Ca<&'static str>;
pub type PrimitiveArray<T> = Ca<T>;
pub trait NativeType: Sized {}
pub trait Hash: Sized {}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Hs<T> { p: std::marker::PhantomData<T> }
impl<T> View for Hs<T> { type V = Set<Option<T>>; uninterp spec fn view(&self) -> Set<Option<T>>; }
#[verifier::reject_recursive_types(T)] pub struct Inter<'a, T> { pub a: &'a Hs<T>, pub b: &'a Hs<T> }
#[verifier::external_body] pub fn vx_hset<T>(c: &Ca<T>) -> (r: Hs<T>) ensures r@ == c@.to_set() { unimplemented!() }
impl<T> Hs<T> {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r < i32::MAX { unimplemented!() }
  #[verifier::external_body] pub fn intersection<'a>(&'a self, o: &'a Hs<T>) -> (r: Inter<'a, T>) ensures r.a == self, r.b == o { unimplemented!() }
}
impl<'a, T> Inter<'a, T> { #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.a@.intersect(self.b@).len() { unimplemented!() } }
pub assume_specification [usize::abs_diff] (_0: usize, _1: usize) -> (r: usize) ensures r == (if _0 >= _1 { _0 - _1 } else { _1 - _0 });
impl Ca<bool> { #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<bool>) ensures r == (if i < self@.len() { self@[i as int] } else { None }) { unimplemented!() } }
pub struct Series { pub x: usize }
pub uninterp spec fn dt(s: Series) -> DataType;
pub uninterp spec fn rows<T>(s: Series) -> Seq<Option<T>>;
pub uninterp spec fn gaps(s: Series) -> bool;
pub uninterp spec fn out(s: Series) -> Seq<R>;
pub uninterp spec fn nn(s: Series) -> Series;
pub uninterp spec fn castable(s: Series, t: DataType) -> bool;
pub uninterp spec fn castto(s: Series, t: DataType) -> Series;
impl Series {
  #[verifier::external_body] pub fn dtype<'a>(&'a self) -> (r: &'a DataType) ensures *r == dt(*self) { unimplemented!() }
  #[verifier::external_body] pub fn has_nulls(&self) -> (r: bool) ensures r == gaps(*self) { unimplemented!() }
  #[verifier::external_body] pub fn drop_nulls(&self) -> (r: Series) ensures r == nn(*self), dt(r) == dt(*self) { unimplemented!() }
  #[verifier::external_body] pub fn cast(&self, t: &DataType) -> (r: PolarsResult<Series>) ensures (r is Ok) == castable(*self, *t), r is Ok ==> r->Ok_0 == castto(*self, *t) && dt(r->Ok_0) == *t { unimplemented!() }
  #[verifier::external_body] pub fn from_iter(v: [R; 1]) -> (r: Series) ensures out(r) == v@ { unimplemented!() }
  #[verifier::external_body] pub fn bool<'a>(&'a self) -> (r: PolarsResult<&'a Ca<bool>>) ensures (r is Ok) == (dt(*self) is Boolean), r is Ok ==> r->Ok_0@ == rows::<bool>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i8<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i8>>) ensures (r is Ok) == (dt(*self) is Int8), r is Ok ==> r->Ok_0@ == rows::<i8>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i16<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i16>>) ensures (r is Ok) == (dt(*self) is Int16), r is Ok ==> r->Ok_0@ == rows::<i16>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i32>>) ensures (r is Ok) == (dt(*self) is Int32), r is Ok ==> r->Ok_0@ == rows::<i32>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i64>>) ensures (r is Ok) == (dt(*self) is Int64), r is Ok ==> r->Ok_0@ == rows::<i64>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i128<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i128>>) ensures (r is Ok) == (dt(*self) is Int128), r is Ok ==> r->Ok_0@ == rows::<i128>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u8<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u8>>) ensures (r is Ok) == (dt(*self) is UInt8), r is Ok ==> r->Ok_0@ == rows::<u8>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u16<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u16>>) ensures (r is Ok) == (dt(*self) is UInt16), r is Ok ==> r->Ok_0@ == rows::<u16>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u32>>) ensures (r is Ok) == (dt(*self) is UInt32), r is Ok ==> r->Ok_0@ == rows::<u32>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u64>>) ensures (r is Ok) == (dt(*self) is UInt64), r is Ok ==> r->Ok_0@ == rows::<u64>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn str<'a>(&'a self) -> (r: PolarsResult<&'a Ca<&'static str>>) ensures (r is Ok) == (dt(*self) is String), r is Ok ==> r->Ok_0@ == rows::<&'static str>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R4>>) ensures (r is Ok) == (dt(*self) is Float32), r is Ok ==> r->Ok_0@ == rows::<R4>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R>>) ensures (r is Ok) == (dt(*self) is Float64), r is Ok ==> r->Ok_0@ == rows::<R>(*self) { unimplemented!() }
}
// ---- sizes of the two sets and of their intersection ----
pub open spec fn sz<T>(a: Seq<Option<T>>, b: Seq<Option<T>>) -> (int, int, int) { (a.to_set().len() as int, b.to_set().len() as int, a.to_set().intersect(b.to_set()).len() as int) }
pub open spec fn jac(s: (int, int, int), x: int, y: int) -> real { (s.2 + x * y) as real / ((s.0 + x + s.1 + y - (s.2 + x * y)) as real) }
proof fn sz_le<T>(a: Seq<Option<T>>, b: Seq<Option<T>>) ensures ({ let s = sz(a, b); 0 <= s.2 <= s.0 && s.2 <= s.1 && (a.len() > 0 ==> s.0 > 0) && (b.len() > 0 ==> s.1 > 0) })
{ let (p, q) = (a.to_set(), b.to_set()); vstd::set_lib::lemma_len_subset(p.intersect(q), p); vstd::set_lib::lemma_len_subset(p.intersect(q), q);
  if a.len() > 0 { assert(p.contains(a[0])); if p.len() == 0 { assert(p =~= Set::empty()); } } if b.len() > 0 { assert(q.contains(b[0])); if q.len() == 0 { assert(q =~= Set::empty()); } } }
pub open spec fn mixed(a: Series, b: Series) -> bool { whole(dt(a)) && dt(a) != dt(b) }
pub open spec fn i64s(s: Series) -> Seq<Option<i64>> { rows::<i64>(castto(nn(s), DataType::Int64)) }
pub open spec fn sizes(a: Series, b: Series) -> (int, int, int) { let (p, q) = (nn(a), nn(b)); if mixed(a, b) { sz(i64s(a), i64s(b)) } else { match dt(a) { DataType::Int8 => sz(rows::<i8>(p), rows::<i8>(q)), DataType::Int16 => sz(rows::<i16>(p), rows::<i16>(q)), DataType::Int32 => sz(rows::<i32>(p), rows::<i32>(q)), DataType::Int64 => sz(rows::<i64>(p), rows::<i64>(q)), DataType::Int128 => sz(rows::<i128>(p), rows::<i128>(q)), DataType::UInt8 => sz(rows::<u8>(p), rows::<u8>(q)), DataType::UInt16 => sz(rows::<u16>(p), rows::<u16>(q)), DataType::UInt32 => sz(rows::<u32>(p), rows::<u32>(q)), DataType::UInt64 => sz(rows::<u64>(p), rows::<u64>(q)), DataType::String => sz(rows::<&'static str>(p), rows::<&'static str>(q)), DataType::Float32 => sz(rows::<R4>(p), rows::<R4>(q)), DataType::Float64 => sz(rows::<R>(p), rows::<R>(q)), _ => (0int, 0int, 0int) } } }
pub open spec fn counted(i: Seq<Series>) -> bool { let r = rows::<bool>(i[2]); r.len() > 0 && r[0] == Some(true) }
pub open spec fn gap(i: Seq<Series>, k: int) -> int { if counted(i) && gaps(i[k]) { 1 } else { 0 } }
pub open spec fn works(i: Seq<Series>) -> bool { dt(i[2]) is Boolean && (if mixed(i[0], i[1]) { castable(nn(i[0]), DataType::Int64) && castable(nn(i[1]), DataType::Int64) } else { dt(i[0]) == dt(i[1]) && !(dt(i[0]) is Boolean) }) }
//@fn file=num_ext/jaccard.rs path=jaccard_str ret=r
//@spec
requires c1@.len() + c2@.len() > 0
ensures r@ == jac(sz(c1@, c2@), 0, 0)
//@at fn.start
proof { sz_le(c1@, c2@); }
//@end
//@fn file=num_ext/jaccard.rs path=jaccard_int ret=r
//@spec
requires a@.len() + b@.len() > 0
ensures r@ == jac(sz(a@, b@), 0, 0)
//@at fn.start
proof { sz_le(a@, b@); }
//@end
//@fn file=num_ext/jaccard.rs path=pl_jaccard ret=r
//@spec
requires inputs.len() == 3, ({ let s = sizes(inputs[0], inputs[1]); s.0 + s.1 + gap(inputs@, 0) + gap(inputs@, 1) > 0 })
ensures (r is Ok) == works(inputs@), r is Ok ==> out(r->Ok_0).len() == 1 && out(r->Ok_0)[0]@ == jac(sizes(inputs[0], inputs[1]), gap(inputs@, 0), gap(inputs@, 1))
//@at fn.start
proof { let (p, q) = (nn(inputs[0]), nn(inputs[1])); sz_le(i64s(inputs[0]), i64s(inputs[1])); sz_le(rows::<i8>(p), rows::<i8>(q)); sz_le(rows::<i16>(p), rows::<i16>(q)); sz_le(rows::<i32>(p), rows::<i32>(q)); sz_le(rows::<i64>(p), rows::<i64>(q)); sz_le(rows::<i128>(p), rows::<i128>(q)); sz_le(rows::<u8>(p), rows::<u8>(q)); sz_le(rows::<u16>(p), rows::<u16>(q)); sz_le(rows::<u32>(p), rows::<u32>(q)); sz_le(rows::<u64>(p), rows::<u64>(q)); sz_le(rows::<&'static str>(p), rows::<&'static str>(q)); sz_le(rows::<R4>(p), rows::<R4>(q)); sz_le(rows::<R>(p), rows::<R>(q)); }
//@end
}
fn main(){}
