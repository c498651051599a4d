//@soft
//@include prelude_real.rs
//@default types=f64:R,f32:R4,PolarsNumericType:Num strip=zzz parcols=1 methods=into_iter=>vx_items
verus!{
// ---- trusted: columns without missing values; columns of lists ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct R4 { x: f32 }
pub trait Num: Sized + Copy { fn get_dtype() -> DataType; }
impl Num for u8 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for u16 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for u32 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for u64 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for i8 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for i16 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for i32 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for i64 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for i128 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for R4 { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
impl Num for R { #[verifier::external_body] fn get_dtype() -> DataType { unimplemented!() } }
pub enum DataType { UInt8, UInt16, UInt32, UInt64, Int8, Int16, Int32, Int64, Int128, Float32, Float64, String, Boolean }
impl PartialEq for DataType { #[verifier::external_body] fn eq(&self, o: &DataType) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DataType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DataType) -> bool { *self == *o } }
pub struct Name { pub x: usize }
#[verifier::external_body] pub fn vx_name() -> Name { unimplemented!() }
pub enum PolarsError { ComputeError(Name) }
#[verifier::external] impl std::fmt::Debug for PolarsError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub type PolarsResult<T> = Result<T, PolarsError>;
pub type ChunkedArray<T> = Vec<T>;
pub type StringChunked = Vec<&'static str>;
pub struct Series { pub x: usize }
pub uninterp spec fn dt(s: Series) -> DataType;
pub uninterp spec fn count(s: Series) -> nat;
pub uninterp spec fn rows<T>(s: Series) -> Seq<T>;
pub uninterp spec fn lists<T>(s: Series) -> Seq<Seq<T>>;
impl Series {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn dtype<'a>(&'a self) -> (r: &'a DataType) ensures *r == dt(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u8<'a>(&'a self) -> (r: PolarsResult<&'a Vec<u8>>) ensures (r is Ok) == (dt(*self) is UInt8), r is Ok ==> r->Ok_0@ == rows::<u8>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u16<'a>(&'a self) -> (r: PolarsResult<&'a Vec<u16>>) ensures (r is Ok) == (dt(*self) is UInt16), r is Ok ==> r->Ok_0@ == rows::<u16>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u32<'a>(&'a self) -> (r: PolarsResult<&'a Vec<u32>>) ensures (r is Ok) == (dt(*self) is UInt32), r is Ok ==> r->Ok_0@ == rows::<u32>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u64<'a>(&'a self) -> (r: PolarsResult<&'a Vec<u64>>) ensures (r is Ok) == (dt(*self) is UInt64), r is Ok ==> r->Ok_0@ == rows::<u64>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i8<'a>(&'a self) -> (r: PolarsResult<&'a Vec<i8>>) ensures (r is Ok) == (dt(*self) is Int8), r is Ok ==> r->Ok_0@ == rows::<i8>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i16<'a>(&'a self) -> (r: PolarsResult<&'a Vec<i16>>) ensures (r is Ok) == (dt(*self) is Int16), r is Ok ==> r->Ok_0@ == rows::<i16>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i32<'a>(&'a self) -> (r: PolarsResult<&'a Vec<i32>>) ensures (r is Ok) == (dt(*self) is Int32), r is Ok ==> r->Ok_0@ == rows::<i32>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i64<'a>(&'a self) -> (r: PolarsResult<&'a Vec<i64>>) ensures (r is Ok) == (dt(*self) is Int64), r is Ok ==> r->Ok_0@ == rows::<i64>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i128<'a>(&'a self) -> (r: PolarsResult<&'a Vec<i128>>) ensures (r is Ok) == (dt(*self) is Int128), r is Ok ==> r->Ok_0@ == rows::<i128>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f32<'a>(&'a self) -> (r: PolarsResult<&'a Vec<R4>>) ensures (r is Ok) == (dt(*self) is Float32), r is Ok ==> r->Ok_0@ == rows::<R4>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f64<'a>(&'a self) -> (r: PolarsResult<&'a Vec<R>>) ensures (r is Ok) == (dt(*self) is Float64), r is Ok ==> r->Ok_0@ == rows::<R>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn str<'a>(&'a self) -> (r: PolarsResult<&'a Vec<&'static str>>) ensures (r is Ok) == (dt(*self) is String), r is Ok ==> r->Ok_0@ == rows::<&'static str>(*self) && r->Ok_0@.len() == count(*self) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Lists<T> { p: std::marker::PhantomData<T> }
impl<T> View for Lists<T> { type V = Seq<Seq<T>>; uninterp spec fn view(&self) -> Seq<Seq<T>>; }
impl<T> Lists<T> { #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures lists::<T>(r) == self@ { unimplemented!() } }
// a builder of lists; the two capacities are hints
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ListPrimitiveChunkedBuilder<T> { p: std::marker::PhantomData<T> }
impl<T> View for ListPrimitiveChunkedBuilder<T> { type V = Seq<Seq<T>>; uninterp spec fn view(&self) -> Seq<Seq<T>>; }
impl<T> ListPrimitiveChunkedBuilder<T> {
  #[verifier::external_body] pub fn new(n: Name, a: usize, b: usize, t: DataType) -> (r: Self) ensures r@ == Seq::<Seq<T>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn append_slice(&mut self, v: &[T]) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
  #[verifier::external_body] pub fn finish(self) -> (r: Lists<T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct ListStringChunkedBuilder { x: usize }
impl View for ListStringChunkedBuilder { type V = Seq<Seq<&'static str>>; uninterp spec fn view(&self) -> Seq<Seq<&'static str>>; }
impl ListStringChunkedBuilder {
  #[verifier::external_body] pub fn new(n: Name, a: usize, b: usize) -> (r: Self) ensures r@ == Seq::<Seq<&'static str>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn append_values_iter(&mut self, v: Vec<&'static str>) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
  #[verifier::external_body] pub fn finish(self) -> (r: Lists<&'static str>) ensures r@ == self@ { unimplemented!() }
}
pub trait Items<T>: Sized { spec fn items(self) -> Seq<T>; }
impl<T> Items<T> for Vec<T> { open spec fn items(self) -> Seq<T> { self@ } }
impl<T, const N: usize> Items<T> for [T; N] { open spec fn items(self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn vx_items<T, S: Items<T>>(s: S) -> (r: Vec<T>) ensures r@ == s.items() { unimplemented!() }
// ---- itertools: every choice of k positions in ascending order, choices in lexicographic order ----
pub open spec fn withf<T>(x: T, c: Seq<Seq<T>>) -> Seq<Seq<T>> { Seq::new(c.len(), |i: int| seq![x] + c[i]) }
pub open spec fn combs<T>(s: Seq<T>, k: nat) -> Seq<Seq<T>> decreases s.len() { if k == 0 { seq![Seq::empty()] } else if s.len() == 0 { Seq::empty() } else { withf(s[0], combs(s.drop_first(), (k - 1) as nat)) + combs(s.drop_first(), k) } }
#[verifier::external_body] pub fn vx_combs<T>(c: &Vec<T>, k: usize) -> (r: Vec<Vec<T>>) ensures r.len() == combs(c@, k as nat).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == combs(c@, k as nat)[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_own<T>(c: &T) -> (r: T) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn count_combinations(n: usize, k: usize) -> usize { unimplemented!() }
// every pair, the first column outermost
pub open spec fn pairs1<T>(a: T, b: Seq<T>, n: int) -> Seq<Seq<T>> { Seq::new(n as nat, |j: int| seq![a, b[j]]) }
pub open spec fn pairs<T>(a: Seq<T>, b: Seq<T>, n: int) -> Seq<Seq<T>> decreases n { if n <= 0 { Seq::empty() } else { pairs(a, b, n - 1) + pairs1(a[n - 1], b, b.len() as int) } }
pub open spec fn known(t: DataType) -> bool { !(t is Boolean) }
//@fn file=num_ext/iterations.rs path=get_product ret=r
//@sig pub fn get_product<T: Num>(ca1: &ChunkedArray<T>, ca2: &ChunkedArray<T>) -> (r: Series)
//@spec
requires ca1.len() * ca2.len() <= usize::MAX
ensures lists::<T>(r) == pairs(ca1@, ca2@, ca1.len() as int)
//@loop 0
invariant __i0 <= __n0, __n0 == ca1.len(), builder@ == pairs(ca1@, ca2@, __i0 as int),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == ca2.len(), __i0 <= ca1.len(), __i0 > 0, a == ca1[__i0 - 1], builder@ =~= pairs(ca1@, ca2@, __i0 - 1) + pairs1(a, ca2@, __i1 as int),
decreases __n1 - __i1
//@end
//@fn file=num_ext/iterations.rs path=get_product_str ret=r
//@sig pub fn get_product_str(ca1: &StringChunked, ca2: &StringChunked) -> (r: Series)
//@spec
requires ca1.len() * ca2.len() <= usize::MAX
ensures lists::<&'static str>(r) == pairs(ca1@, ca2@, ca1.len() as int)
//@loop 0
invariant __i0 <= __n0, __n0 == ca1.len(), builder@ == pairs(ca1@, ca2@, __i0 as int),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == ca2.len(), __i0 <= ca1.len(), __i0 > 0, a == ca1[__i0 - 1], builder@ =~= pairs(ca1@, ca2@, __i0 - 1) + pairs1(a, ca2@, __i1 as int),
decreases __n1 - __i1
//@end
//@fn file=num_ext/iterations.rs path=get_combinations ret=r own_iter=1
//@sig pub fn get_combinations<T: Num>(ca: &ChunkedArray<T>, k: usize) -> (r: Series)
//@spec
ensures lists::<T>(r) == combs(ca@, k as nat)
//@loop 0
invariant __i0 <= __n0, __n0 == combs(ca@, k as nat).len(), __n0 == __s1.len(), forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s1@[i])@ == combs(ca@, k as nat)[i], builder@ =~= combs(ca@, k as nat).subrange(0, __i0 as int),
decreases __n0 - __i0
//@end
//@fn file=num_ext/iterations.rs path=get_combinations_str ret=r own_iter=1
//@sig pub fn get_combinations_str(ca: &StringChunked, k: usize) -> (r: Series)
//@spec
ensures lists::<&'static str>(r) == combs(ca@, k as nat)
//@loop 0
invariant __i0 <= __n0, __n0 == combs(ca@, k as nat).len(), __n0 == __s1.len(), forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s1@[i])@ == combs(ca@, k as nat)[i], builder@ =~= combs(ca@, k as nat).subrange(0, __i0 as int),
decreases __n0 - __i0
//@end
//@struct path=CombinationKwargs file=num_ext/iterations.rs
//@fn file=num_ext/iterations.rs path=pl_combinations ret=r
//@spec
requires inputs.len() == 1
ensures (r is Ok) == (count(inputs[0]) >= kwargs.k && known(dt(inputs[0]))), r is Ok ==> ((dt(inputs[0]) is UInt8 ==> lists::<u8>(r->Ok_0) == combs(rows::<u8>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is UInt16 ==> lists::<u16>(r->Ok_0) == combs(rows::<u16>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is UInt32 ==> lists::<u32>(r->Ok_0) == combs(rows::<u32>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is UInt64 ==> lists::<u64>(r->Ok_0) == combs(rows::<u64>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Int8 ==> lists::<i8>(r->Ok_0) == combs(rows::<i8>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Int16 ==> lists::<i16>(r->Ok_0) == combs(rows::<i16>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Int32 ==> lists::<i32>(r->Ok_0) == combs(rows::<i32>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Int64 ==> lists::<i64>(r->Ok_0) == combs(rows::<i64>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Int128 ==> lists::<i128>(r->Ok_0) == combs(rows::<i128>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Float32 ==> lists::<R4>(r->Ok_0) == combs(rows::<R4>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is Float64 ==> lists::<R>(r->Ok_0) == combs(rows::<R>(inputs[0]), kwargs.k as nat)) && (dt(inputs[0]) is String ==> lists::<&'static str>(r->Ok_0) == combs(rows::<&'static str>(inputs[0]), kwargs.k as nat)))
//@end
//@fn file=num_ext/iterations.rs path=pl_product ret=r
//@spec
requires inputs.len() == 2, count(inputs[0]) * count(inputs[1]) <= usize::MAX
ensures (r is Ok) == (dt(inputs[0]) == dt(inputs[1]) && known(dt(inputs[0]))), r is Ok ==> ((dt(inputs[0]) is UInt8 ==> lists::<u8>(r->Ok_0) == pairs(rows::<u8>(inputs[0]), rows::<u8>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is UInt16 ==> lists::<u16>(r->Ok_0) == pairs(rows::<u16>(inputs[0]), rows::<u16>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is UInt32 ==> lists::<u32>(r->Ok_0) == pairs(rows::<u32>(inputs[0]), rows::<u32>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is UInt64 ==> lists::<u64>(r->Ok_0) == pairs(rows::<u64>(inputs[0]), rows::<u64>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Int8 ==> lists::<i8>(r->Ok_0) == pairs(rows::<i8>(inputs[0]), rows::<i8>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Int16 ==> lists::<i16>(r->Ok_0) == pairs(rows::<i16>(inputs[0]), rows::<i16>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Int32 ==> lists::<i32>(r->Ok_0) == pairs(rows::<i32>(inputs[0]), rows::<i32>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Int64 ==> lists::<i64>(r->Ok_0) == pairs(rows::<i64>(inputs[0]), rows::<i64>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Int128 ==> lists::<i128>(r->Ok_0) == pairs(rows::<i128>(inputs[0]), rows::<i128>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Float32 ==> lists::<R4>(r->Ok_0) == pairs(rows::<R4>(inputs[0]), rows::<R4>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is Float64 ==> lists::<R>(r->Ok_0) == pairs(rows::<R>(inputs[0]), rows::<R>(inputs[1]), count(inputs[0]) as int)) && (dt(inputs[0]) is String ==> lists::<&'static str>(r->Ok_0) == pairs(rows::<&'static str>(inputs[0]), rows::<&'static str>(inputs[1]), count(inputs[0]) as int)))
//@end
}
fn main(){}
