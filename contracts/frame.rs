//@use polars (version pinned in Cargo.lock): frames of numeric columns
verus! {
// ---- trusted: numeric series and frames, read as columns of optional numbers ----
pub type String = Name;
pub type Column = Series;
pub type LazyFrame = DataFrame;
pub type Float32Chunked = Ca<R>;
pub type Array2<T> = Matrix<T>;
pub uninterp spec fn nm(s: Series) -> Name;
pub uninterp spec fn nlen(n: Name) -> nat;
pub uninterp spec fn slen(s: Series) -> nat;
pub uninterp spec fn whole(s: Series) -> bool;
pub uninterp spec fn fields(s: Series) -> Seq<Series>;
pub open spec fn vals(s: Series) -> Seq<Option<R>> { sv::<R>(s) }
pub axiom fn slen_vals(s: Series) ensures slen(s) == vals(s).len();
impl Copy for Name {}
impl Clone for Series { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Series {
  #[verifier::external_body] pub fn has_nulls(&self) -> (r: bool) ensures r == exists|i: int| 0 <= i < vals(*self).len() && (#[trigger] vals(*self)[i]) is None { unimplemented!() }
  #[verifier::external_body] pub fn is_not_null(&self) -> (r: Ca<bool>) ensures r@.len() == vals(*self).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == Some(vals(*self)[i] is Some) { unimplemented!() }
  #[verifier::external_body] pub fn is_null(&self) -> (r: Ca<bool>) ensures r@.len() == vals(*self).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == Some(vals(*self)[i] is None) { unimplemented!() }
  #[verifier::external_body] pub fn name(&self) -> (r: &Name) ensures *r == nm(*self) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == vals(*self).len() { unimplemented!() }
  #[verifier::external_body] pub fn into_column(self) -> (r: Series) ensures r == self { unimplemented!() }
  #[verifier::external_body] pub fn cast(&self, t: &DataType) -> (r: PolarsResult<Series>) ensures *t is Float64 || *t is Float32 ==> r is Ok && vals(r->Ok_0) == vals(*self) && isa::<R>(r->Ok_0) && nm(r->Ok_0) == nm(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R>>) ensures (r is Ok) == isa::<R>(*self), r is Ok ==> r->Ok_0@ == vals(*self) { unimplemented!() }
}
impl Name {
  #[verifier::external_body] pub fn as_str(&self) -> (r: &Name) ensures *r == *self { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self) -> (r: Name) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub fn vx_str(s: &str) -> (r: Name) ensures nlen(r) == s@.len() { unimplemented!() }
impl<'b> Add<&'b Name> for Name { type Output = Name;
  #[verifier::external_body] fn add(self, o: &'b Name) -> (r: Name) ensures nlen(r) == nlen(self) + nlen(*o) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b Name> for Name {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b Name) -> bool { true }
  open spec fn add_spec(self, rhs: &'b Name) -> Name { arbitrary() }
}
impl Add<Name> for Name { type Output = Name;
  #[verifier::external_body] fn add(self, o: Name) -> (r: Name) ensures nlen(r) == nlen(self) + nlen(o) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Name> for Name {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: Name) -> bool { true }
  open spec fn add_spec(self, rhs: Name) -> Name { arbitrary() }
}
// conversions: names stay what they are
pub trait Conv<B>: Sized { spec fn conv(self, b: B) -> bool; }
impl Conv<Name> for Name { open spec fn conv(self, b: Name) -> bool { b == self } }
#[verifier::external_body] pub fn vx_into<A: Conv<B>, B>(a: A) -> (r: B) ensures a.conv(r) { unimplemented!() }
// a name put into a text with one hole
pub uninterp spec fn fmtn(s: Seq<char>, n: Name) -> Name;
pub axiom fn fmt_one(s: Seq<char>, a: Name, b: Name) ensures fmtn(s, a) == fmtn(s, b) ==> a == b;
// texts that end differently after the hole
pub axiom fn fmt_two(a: Name, b: Name) ensures fmtn("{}_pred"@, a) != fmtn("{}_resid"@, b);
#[verifier::external_body] pub fn vx_fmt(s: &str, n: &Name) -> (r: Name) ensures r == fmtn(s@, *n) { unimplemented!() }
// ---- masks ----
impl Bits for Ca<bool> {
  // missing entries are not modelled: both sides come from is_null / is_not_null, or the result is not used
  open spec fn is_or(a: Self, b: Self, r: Self) -> bool { a@.len() == b@.len() ==> r@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() && a@[i] is Some && b@[i] is Some ==> (#[trigger] r@[i]) == Some(a@[i]->0 || b@[i]->0) }
  open spec fn is_and(a: Self, b: Self, r: Self) -> bool { a@.len() == b@.len() ==> r@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() && a@[i] is Some && b@[i] is Some ==> (#[trigger] r@[i]) == Some(a@[i]->0 && b@[i]->0) }
}
#[verifier::external_body] pub fn vx_not(a: &Ca<bool>) -> (r: Ca<bool>) ensures r@.len() == a@.len(), forall|i: int| #![trigger r@[i]] #![trigger a@[i]] 0 <= i < a@.len() ==> r@[i] == (match a@[i] { Some(b) => Some(!b), None => None }) { unimplemented!() }
impl Ca<bool> {
  #[verifier::external_body] pub fn any(&self) -> (r: bool) ensures r == exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]) == Some(true) { unimplemented!() }
  #[verifier::external_body] pub fn all(&self) -> (r: bool) ensures r == forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) != Some(false) { unimplemented!() }
  #[verifier::external_body] pub fn vx_bools(&self) -> (r: Vec<bool>) requires forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) is Some ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> Some(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
pub uninterp spec fn cname<T>(c: Ca<T>) -> Name;
impl<T> Ca<T> {
  #[verifier::external_body] pub fn from_slice(n: Name, v: &[T]) -> (r: Ca<T>) ensures cname(r) == n, r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]) == Some(v@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn from_vec(n: Name, v: Vec<T>) -> (r: Ca<T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]) == Some(v@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn into_column(self) -> (r: Series) ensures sv::<T>(r) == self@, slen(r) == self@.len(), nm(r) == cname(self) { unimplemented!() }
}
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]->0) }
// a column exported to a plugin is in one piece; cont_slice fails when an entry is missing
impl Ca<R> {
  #[verifier::external_body] pub fn cont_slice(&self) -> (r: PolarsResult<&[R]>)
    ensures (r is Ok) == (forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) is Some), r is Ok ==> r->Ok_0@ == somes(self@) { unimplemented!() }
}
// ---- frames ----
pub type Cols = Seq<Seq<Option<R>>>;
pub ghost struct Fr { pub names: Seq<Name>, pub cols: Cols, pub h: nat }
#[verifier::external_body] pub struct DataFrame { x: usize }
impl View for DataFrame { type V = Fr; uninterp spec fn view(&self) -> Fr; }
// the columns themselves
pub uninterp spec fn sers(d: DataFrame) -> Seq<Series>;
pub axiom fn frame_wf(d: DataFrame) ensures d@.names.len() == d@.cols.len(), forall|k: int| 0 <= k < d@.cols.len() ==> (#[trigger] d@.cols[k]).len() == d@.h, d@.cols.len() == 0 ==> d@.h == 0;
pub open spec fn distinct(n: Seq<Name>) -> bool { forall|i: int, j: int| 0 <= i < j < n.len() ==> #[trigger] n[i] != #[trigger] n[j] }
pub open spec fn level(c: Cols) -> bool { forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() ==> (#[trigger] c[i]).len() == (#[trigger] c[j]).len() }
pub open spec fn snames(v: Seq<Series>) -> Seq<Name> { Seq::new(v.len(), |k: int| nm(v[k])) }
pub open spec fn scols(v: Seq<Series>) -> Cols { Seq::new(v.len(), |k: int| vals(v[k])) }
// the rows that are kept, in order
pub open spec fn kept(m: Seq<bool>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if m[n - 1] { kept(m, n - 1).push(n - 1) } else { kept(m, n - 1) } }
pub open spec fn rows(c: Cols, m: Seq<bool>) -> Cols { let s = kept(m, m.len() as int); Seq::new(c.len(), |k: int| Seq::new(s.len(), |i: int| c[k][s[i]])) }
pub open spec fn trues(m: Seq<Option<bool>>) -> Seq<bool> { Seq::new(m.len(), |i: int| m[i] == Some(true)) }
// expressions, as far as they are used on frames
pub ghost enum Ex { Col(Seq<char>), Lit(R), Alias(Box<Ex>, Name), Exclude(Box<Ex>, Seq<Name>), Cast(Box<Ex>, DataType), Fill(Box<Ex>, Box<Ex>) }
pub open spec fn out_of(e: Ex) -> Seq<Name> decreases e { match e { Ex::Exclude(x, n) => out_of(*x) + n, Ex::Cast(x, t) => out_of(*x), Ex::Fill(x, y) => out_of(*x), _ => Seq::empty() } }
pub open spec fn star(e: Ex) -> bool decreases e { match e { Ex::Col(c) => c == "*"@, Ex::Exclude(x, n) => star(*x), Ex::Cast(x, t) => star(*x), Ex::Fill(x, y) => star(*x), _ => false } }
pub open spec fn cell(e: Ex, c: Option<R>) -> Option<R> decreases e { match e {
  Ex::Exclude(x, n) => cell(*x, c), Ex::Cast(x, t) => if t is Float64 || t is Float32 { cell(*x, c) } else { arbitrary() },
  Ex::Fill(x, y) => if cell(*x, c) is None { match *y { Ex::Lit(v) => Some(v), _ => arbitrary() } } else { cell(*x, c) }, _ => c } }
pub open spec fn konst(v: R, h: nat) -> Seq<Option<R>> { Seq::new(h, |i: int| Some(v)) }
pub open spec fn put(f: Fr, n: Name, v: R) -> Fr { if f.names.contains(n) { Fr { cols: Seq::new(f.cols.len(), |k: int| if f.names[k] == n { konst(v, f.h) } else { f.cols[k] }), ..f } } else { Fr { names: f.names.push(n), cols: f.cols.push(konst(v, f.h)), h: f.h } } }
pub open spec fn with(f: Fr, e: Ex) -> Fr {
  if star(e) { Fr { cols: Seq::new(f.cols.len(), |k: int| if out_of(e).contains(f.names[k]) { f.cols[k] } else { Seq::new(f.cols[k].len(), |i: int| cell(e, f.cols[k][i])) }), ..f } }
  else { match e { Ex::Alias(x, n) => match *x { Ex::Lit(v) => put(f, n, v), _ => arbitrary() }, Ex::Lit(v) => put(f, litname(), v), _ => arbitrary() } }
}
pub uninterp spec fn litname() -> Name;
pub open spec fn with_all(f: Fr, e: Seq<Ex>) -> Fr { if e.len() == 1 { with(f, e[0]) } else { arbitrary() } }
#[verifier::external_body] pub struct Exp { x: usize }
impl View for Exp { type V = Ex; uninterp spec fn view(&self) -> Ex; }
pub trait Names: Sized { spec fn ns(self) -> Seq<Name>; }
impl<const N: usize> Names for [Name; N] { open spec fn ns(self) -> Seq<Name> { self@ } }
impl Names for Vec<Name> { open spec fn ns(self) -> Seq<Name> { self@ } }
#[verifier::external_body] pub fn lit(v: R) -> (r: Exp) ensures r@ == Ex::Lit(v) { unimplemented!() }
#[verifier::external_body] pub fn col(s: &str) -> (r: Exp) ensures r@ == Ex::Col(s@) { unimplemented!() }
impl Exp {
  #[verifier::external_body] pub fn alias(self, n: Name) -> (r: Exp) ensures r@ == Ex::Alias(Box::new(self@), n) { unimplemented!() }
  #[verifier::external_body] pub fn exclude<N: Names>(self, n: N) -> (r: Exp) ensures r@ == Ex::Exclude(Box::new(self@), n.ns()) { unimplemented!() }
  #[verifier::external_body] pub fn cast(self, t: DataType) -> (r: Exp) ensures r@ == Ex::Cast(Box::new(self@), t) { unimplemented!() }
  #[verifier::external_body] pub fn fill_null(self, e: Exp) -> (r: Exp) ensures r@ == Ex::Fill(Box::new(self@), Box::new(e@)) { unimplemented!() }
}
#[derive(Clone, Copy)] pub enum IndexOrder { C, Fortran }
// the matrix of a frame; a missing entry is a NaN
pub uninterp spec fn nanv() -> real;
pub open spec fn cv(o: Option<R>) -> real { match o { Some(x) => x@, None => nanv() } }
pub open spec fn cb(o: Option<R>) -> bool { match o { Some(x) => nanp(x), None => true } }
pub open spec fn fmx(c: Cols, h: int) -> Mx { Mx { r: h, c: c.len() as int, e: |i: int, j: int| cv(c[j][i]), bad: |i: int, j: int| cb(c[j][i]) } }
impl DataFrame {
  #[verifier::external_body] pub fn new(v: Vec<Series>) -> (r: PolarsResult<DataFrame>)
    ensures (r is Ok) == (distinct(snames(v@)) && level(scols(v@))), r is Ok ==> r->Ok_0@.names == snames(v@) && r->Ok_0@.cols == scols(v@) && r->Ok_0@.h == (if v@.len() == 0 { 0 } else { vals(v@[0]).len() }), r is Ok ==> sers(r->Ok_0) == v@ { unimplemented!() }
  #[verifier::external_body] pub fn into_struct(self, n: Name) -> (r: StructChunked) ensures fields(r.s) == sers(self) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.h == 0 || self@.cols.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn height(&self) -> (r: usize) ensures r == self@.h { unimplemented!() }
  #[verifier::external_body] pub fn width(&self) -> (r: usize) ensures r == self@.cols.len() { unimplemented!() }
  #[verifier::external_body] pub fn lazy(self) -> (r: DataFrame) ensures r == self { unimplemented!() }
  #[verifier::external_body] pub fn collect(self) -> (r: PolarsResult<DataFrame>) ensures r is Ok, r->Ok_0 == self { unimplemented!() }
  #[verifier::external_body] pub fn with_column(self, e: Exp) -> (r: DataFrame) ensures r@ == with(self@, e@) { unimplemented!() }
  #[verifier::external_body] pub fn with_columns<const N: usize>(self, e: [Exp; N]) -> (r: DataFrame) ensures r@ == with_all(self@, Seq::new(N as nat, |i: int| e@[i]@)) { unimplemented!() }
  #[verifier::external_body] pub fn filter(&self, m: &Ca<bool>) -> (r: PolarsResult<DataFrame>)
    ensures (r is Ok) == (m@.len() == self@.h), r is Ok ==> r->Ok_0@ == (Fr { names: self@.names, cols: rows(self@.cols, trues(m@)), h: kept(trues(m@), m@.len() as int).len() }) { unimplemented!() }
  #[verifier::external_body] pub fn to_ndarray<T>(&self, o: IndexOrder) -> (r: PolarsResult<Matrix<R>>) ensures r is Ok, r->Ok_0@ == fmx(self@.cols, self@.h as int) { unimplemented!() }
}
// ---- what a plugin returns ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ListPrimitiveChunkedBuilder<T> { p: std::marker::PhantomData<T> }
impl<T> ListPrimitiveChunkedBuilder<T> {
  pub uninterp spec fn s(&self) -> Seq<Option<Seq<T>>>;
  pub uninterp spec fn n(&self) -> Name;
  #[verifier::external_body] pub fn new(n: Name, rows: usize, cap: usize, t: DataType) -> (r: Self) ensures r.s() == Seq::<Option<Seq<T>>>::empty(), r.n() == n { unimplemented!() }
  #[verifier::external_body] pub fn append_slice(&mut self, v: &[T]) ensures final(self).s() == old(self).s().push(Some(v@)), final(self).n() == old(self).n() { unimplemented!() }
  #[verifier::external_body] pub fn append_null(&mut self) ensures final(self).s() == old(self).s().push(None) { unimplemented!() }
  #[verifier::external_body] pub fn finish(&mut self) -> (r: Ca<Seq<T>>) ensures r@ == old(self).s(), cname(r) == old(self).n() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct PrimitiveChunkedBuilder<T> { p: std::marker::PhantomData<T> }
impl<T> PrimitiveChunkedBuilder<T> {
  pub uninterp spec fn s(&self) -> Seq<Option<T>>;
  #[verifier::external_body] pub fn new(n: Name, rows: usize) -> (r: Self) ensures r.s() == Seq::<Option<T>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn append_value(&mut self, v: T) ensures final(self).s() == old(self).s().push(Some(v)) { unimplemented!() }
  #[verifier::external_body] pub fn append_option(&mut self, v: Option<T>) ensures final(self).s() == old(self).s().push(v) { unimplemented!() }
  #[verifier::external_body] pub fn append_null(&mut self) ensures final(self).s() == old(self).s().push(None) { unimplemented!() }
  #[verifier::external_body] pub fn finish(self) -> (r: Ca<T>) ensures r@ == self.s() { unimplemented!() }
}
// what into_series makes of a column: its length
pub axiom fn slen_list(s: Series, n: nat) requires sv::<Seq<R>>(s).len() == n ensures slen(s) == n;
pub struct StructChunked { pub s: Series }
impl StructChunked {
  #[verifier::external_body] pub fn from_series<const N: usize>(n: Name, len: usize, f: [&Series; N]) -> (r: PolarsResult<StructChunked>)
    ensures (forall|i: int| 0 <= i < N ==> slen(*#[trigger] f@[i]) == len) ==> r is Ok, r is Ok ==> fields(r->Ok_0.s).len() == N && forall|i: int| #![all_triggers] 0 <= i < N ==> fields(r->Ok_0.s)[i] == *f@[i] { unimplemented!() }
  #[verifier::external_body] pub fn from_columns<const N: usize>(n: Name, len: usize, f: &[Series; N]) -> (r: PolarsResult<StructChunked>)
    ensures (forall|i: int| 0 <= i < N ==> slen(#[trigger] f@[i]) == len) ==> r is Ok, r is Ok ==> fields(r->Ok_0.s).len() == N && forall|i: int| #![all_triggers] 0 <= i < N ==> fields(r->Ok_0.s)[i] == f@[i] { unimplemented!() }
  #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures r == self.s { unimplemented!() }
}
}
pub mod pl { pub use super::*; }
