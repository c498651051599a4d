verus! {
// ---- trusted: Polars columns as sequences of options; chunk boundaries do not show ----
pub struct Name { pub x: usize }
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Name) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_name() -> Name { unimplemented!() }
pub struct Str { pub x: usize }
pub struct Chars<'a> { pub s: &'a Str }
impl Str { #[verifier::external_body] pub fn chars(&self) -> (r: Chars) ensures r.s == self { unimplemented!() } }
pub enum DataType { UInt32, Float64, Float32, Boolean, Str }
pub enum PolarsError { ShapeMismatch(Name), ComputeError(Name) }
#[verifier::external] impl std::fmt::Debug for PolarsError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub type PolarsResult<T> = Result<T, PolarsError>;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Ca<T> { p: std::marker::PhantomData<T> }
impl<T> View for Ca<T> { type V = Seq<Option<T>>; uninterp spec fn view(&self) -> Seq<Option<T>>; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Chunks<T> { p: std::marker::PhantomData<T> }
impl<T> View for Chunks<T> { type V = Seq<Option<T>>; uninterp spec fn view(&self) -> Seq<Option<T>>; }
pub type UInt32Chunked = Ca<u32>;
pub type Float64Chunked = Ca<R>;
pub type BooleanChunked = Ca<bool>;
pub type StringChunked<'a> = Ca<&'a Str>;
pub open spec fn cat<T>(v: Seq<Chunks<T>>) -> Seq<Option<T>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last()@ } }
#[verifier::external_body] pub fn vx_chunks<T>(c: &Ca<T>) -> (r: Chunks<T>) ensures r@ == c@ { unimplemented!() }
#[verifier::external_body] pub fn vx_flatten<T>(c: Vec<Chunks<T>>) -> (r: Chunks<T>) ensures r@ == cat(c@) { unimplemented!() }
#[verifier::external_body] pub fn vx_ca<T>(c: Vec<Option<T>>) -> (r: Ca<T>) ensures r@ == c@ { unimplemented!() }
// what a plugin hands back, read as a column of T
pub struct Series { pub x: usize }
pub uninterp spec fn isa<T>(s: Series) -> bool;
pub uninterp spec fn sv<T>(s: Series) -> Seq<Option<T>>;
pub open spec fn nulls<T>(n: nat) -> Seq<Option<T>> { Seq::new(n, |i: int| None::<T>) }
impl Series {
  #[verifier::external_body] pub fn str<'a>(&'a self) -> (r: PolarsResult<&'a Ca<&'a Str>>) ensures (r is Ok) == isa::<&Str>(*self), r is Ok ==> r->Ok_0@ == sv::<&Str>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn bool<'a>(&'a self) -> (r: PolarsResult<&'a Ca<bool>>) ensures (r is Ok) == isa::<bool>(*self), r is Ok ==> r->Ok_0@ == sv::<bool>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u32>>) ensures (r is Ok) == isa::<u32>(*self), r is Ok ==> r->Ok_0@ == sv::<u32>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R>>) ensures (r is Ok) == isa::<R>(*self), r is Ok ==> r->Ok_0@ == sv::<R>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn full_null(n: Name, len: usize, t: &DataType) -> (r: Series) ensures match *t {
    DataType::UInt32 => sv::<u32>(r) == nulls::<u32>(len as nat), DataType::Float64 | DataType::Float32 => sv::<R>(r) == nulls::<R>(len as nat), DataType::Boolean => sv::<bool>(r) == nulls::<bool>(len as nat), DataType::Str => true } { unimplemented!() }
}
pub struct CallerContext { pub x: usize }
impl CallerContext { #[verifier::external_body] pub fn parallel(&self) -> bool { unimplemented!() } }
pub struct Pool { pub x: usize }
pub exec const POOL: Pool = Pool { x: 0 };
impl Pool { #[verifier::external_body] pub fn current_num_threads(&self) -> (r: usize) ensures r >= 1 { unimplemented!() } }
impl<T> Chunks<T> {
  #[verifier::external_body] pub fn vx_present(&self) -> (r: Vec<T>)
    ensures forall|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]) is Some ==> r@.contains(self@[i]->0), forall|j: int| 0 <= j < r@.len() ==> self@.contains(Some(#[trigger] r@[j])) { unimplemented!() }
}
impl<T> Ca<T> {
  #[verifier::external_body] pub fn vx_arrays(&self) -> (r: Vec<Chunks<T>>)
    ensures forall|x: T| self@.contains(Some(x)) <==> inside(r@, x, r@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= i64::MAX { unimplemented!() }
  #[verifier::external_body] pub fn name(&self) -> (r: &Name) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<T>) ensures r == (if i < self@.len() { self@[i as int] } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn slice(&self, o: i64, n: usize) -> (r: Ca<T>) requires 0 <= o, o + n <= self@.len() ensures r@ == self@.subrange(o as int, o + n) { unimplemented!() }
  #[verifier::external_body] pub fn vx_opts(&self) -> (r: Vec<Option<T>>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn from_chunk_iter(n: Name, c: Chunks<T>) -> (r: Ca<T>) ensures r@ == c@ { unimplemented!() }
  #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures sv::<T>(r) == self@ { unimplemented!() }
  #[verifier::external_body] pub fn apply_nonnull_values_generic<U, F: Fn(T) -> U>(&self, t: DataType, f: F) -> (r: Ca<U>)
    requires forall|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]) is Some ==> f.requires((self@[i]->0,))
    ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (match self@[i] { None => (#[trigger] r@[i]) is None, Some(x) => r@[i] is Some && f.ensures((x,), r@[i]->0) }) { unimplemented!() }
}
#[verifier::external_body] pub fn binary_elementwise_values<A, B, U, F: Fn(A, B) -> U>(a: &Ca<A>, b: &Ca<B>, f: F) -> (r: Ca<U>)
  requires a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() && (#[trigger] a@[i]) is Some && b@[i] is Some ==> f.requires((a@[i]->0, b@[i]->0))
  ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> (if a@[i] is Some && b@[i] is Some { (#[trigger] r@[i]) is Some && f.ensures((a@[i]->0, b@[i]->0), r@[i]->0) } else { r@[i] is None }) { unimplemented!() }
// x is in one of the first n chunks
pub open spec fn inside<T>(v: Seq<Chunks<T>>, x: T, n: int) -> bool { exists|c: int| 0 <= c < n && (#[trigger] v[c])@.contains(Some(x)) }
// row-wise functions of one and of two columns
pub open spec fn map1<A, U>(s: Seq<Option<A>>, f: spec_fn(A) -> U) -> Seq<Option<U>> { Seq::new(s.len(), |i: int| match s[i] { Some(x) => Some(f(x)), None => None }) }
pub open spec fn map2<A, B, U>(s: Seq<Option<A>>, t: Seq<Option<B>>, f: spec_fn(A, B) -> U) -> Seq<Option<U>> { Seq::new(s.len(), |i: int| if s[i] is Some && t[i] is Some { Some(f(s[i]->0, t[i]->0)) } else { None }) }
pub open spec fn sub<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.subrange(a, b) }
pub proof fn step1<A, U>(acc: Seq<Chunks<U>>, c: Chunks<U>, s: Seq<Option<A>>, f: spec_fn(A) -> U, a: int, n: int)
  requires 0 <= a, 0 <= n, a + n <= s.len(), cat(acc) == sub(map1(s, f), 0, a), c@ == map1(s.subrange(a, a + n), f)
  ensures cat(acc.push(c)) == sub(map1(s, f), 0, a + n)
{ assert(acc.push(c).drop_last() =~= acc); assert(cat(acc.push(c)) =~= sub(map1(s, f), 0, a + n)); }
pub proof fn step2<A, B, U>(acc: Seq<Chunks<U>>, c: Chunks<U>, s: Seq<Option<A>>, t: Seq<Option<B>>, f: spec_fn(A, B) -> U, a: int, n: int)
  requires 0 <= a, 0 <= n, a + n <= s.len(), s.len() == t.len(), cat(acc) == sub(map2(s, t, f), 0, a), c@ == map2(s.subrange(a, a + n), t.subrange(a, a + n), f)
  ensures cat(acc.push(c)) == sub(map2(s, t, f), 0, a + n)
{ assert(acc.push(c).drop_last() =~= acc); assert(cat(acc.push(c)) =~= sub(map2(s, t, f), 0, a + n)); }
}
