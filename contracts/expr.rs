//@use polars (version pinned in Cargo.lock): lazy expressions over one row
verus! {
// ---- trusted: Polars expressions, read as functions of a row; a cell is a u32, an integer literal, a float or NaN ----
pub ghost enum V { U(int), L(int), F(real), B(bool), NaN, Odd }
pub uninterp spec fn skey(s: Seq<char>) -> int;
//@STRKEYS
pub struct Key { pub x: usize }
pub uninterp spec fn kv(k: Key) -> int;
pub enum DataType { UInt32, Int32, UInt64, Int64, Float32, Float64, Boolean, String }
pub struct PolarsError { pub x: usize }
pub type PolarsResult<T> = Result<T, PolarsError>;
#[verifier::external_body] pub struct Expr { x: usize }
pub uninterp spec fn den(e: Expr, m: Map<int, V>) -> V;
pub uninterp spec fn nm(e: Expr) -> int;
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// u32 + u32 is a u32, modulo 2^32; a literal takes the type of the other side when that is a float
pub open spec fn fof(v: V) -> V { match v { V::L(x) => V::F(x as real), V::F(x) => v, V::NaN => v, _ => V::Odd } }
pub open spec fn both(a: V, b: V) -> bool { fof(a) != V::Odd && fof(b) != V::Odd && !(a is L && b is L) }
pub open spec fn w32(x: int) -> V { V::U(x % 0x1_0000_0000) }
#[verifier::opaque] pub open spec fn vadd(a: V, b: V) -> V { match (a, b) { (V::U(x), V::U(y)) => w32(x + y), _ => if !both(a, b) { V::Odd } else { match (fof(a), fof(b)) { (V::F(x), V::F(y)) => V::F(x + y), _ => V::NaN } } } }
#[verifier::opaque] pub open spec fn vsub(a: V, b: V) -> V { match (a, b) { (V::U(x), V::U(y)) => w32(x - y), _ => if !both(a, b) { V::Odd } else { match (fof(a), fof(b)) { (V::F(x), V::F(y)) => V::F(x - y), _ => V::NaN } } } }
#[verifier::opaque] pub open spec fn vmul(a: V, b: V) -> V { match (a, b) { (V::U(x), V::U(y)) => w32(x * y), _ => if !both(a, b) { V::Odd } else { match (fof(a), fof(b)) { (V::F(x), V::F(y)) => V::F(x * y), _ => V::NaN } } } }
// infinities are not modelled: what a division by zero gives is unknown
#[verifier::opaque] pub open spec fn vdiv(a: V, b: V) -> V { if !both(a, b) { V::Odd } else { match (fof(a), fof(b)) { (V::F(x), V::F(y)) => if y == 0real { V::Odd } else { V::F(x / y) }, _ => V::NaN } } }
#[verifier::opaque] pub open spec fn vsqrt(a: V) -> V { match fof(a) { V::F(x) => if x < 0real { V::NaN } else { V::F(rsqrt(x)) }, V::NaN => V::NaN, _ => V::Odd } }
pub open spec fn vcast(a: V) -> V { match a { V::U(x) => V::F(x as real), _ => fof(a) } }
pub open spec fn veq(a: V, b: V) -> V { match (vcast(a), vcast(b)) { (V::F(x), V::F(y)) => V::B(x == y), (V::NaN, V::NaN) => V::B(true), (V::NaN, V::F(y)) => V::B(false), (V::F(x), V::NaN) => V::B(false), _ => V::Odd } }
pub open spec fn vneq(a: V, b: V) -> V { match veq(a, b) { V::B(x) => V::B(!x), _ => V::Odd } }
// a NaN is larger than every number
pub open spec fn vgt(a: V, b: V) -> V { match (vcast(a), vcast(b)) { (V::F(x), V::F(y)) => V::B(x > y), (V::NaN, V::NaN) => V::B(false), (V::NaN, V::F(y)) => V::B(true), (V::F(x), V::NaN) => V::B(false), _ => V::Odd } }
pub open spec fn vif(c: V, a: V, b: V) -> V { match c { V::B(x) => if x { vcast(a) } else { vcast(b) }, _ => V::Odd } }
pub open spec fn at(m: Map<int, V>, k: int) -> V { if m.dom().contains(k) { m[k] } else { V::Odd } }
pub trait Lit: Sized { spec fn lv(self) -> V; }
impl Lit for i32 { open spec fn lv(self) -> V { V::L(self as int) } }
impl Lit for R { open spec fn lv(self) -> V { if nanp(self) { V::NaN } else { V::F(self@) } } }
#[verifier::external_body] pub fn lit<T: Lit>(v: T) -> (r: Expr) ensures forall|m: Map<int, V>| #[trigger] den(r, m) == v.lv() { unimplemented!() }
#[verifier::external_body] pub fn col(s: &str) -> (r: Expr) ensures nm(r) == skey(s@), forall|m: Map<int, V>| #[trigger] den(r, m) == at(m, skey(s@)) { unimplemented!() }
impl Add for Expr { type Output = Expr;
  #[verifier::external_body] fn add(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Map<int, V>| #[trigger] den(r, m) == vadd(den(self, m), den(o, m)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for Expr {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: Expr) -> bool { true }
  open spec fn add_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
impl Sub for Expr { type Output = Expr;
  #[verifier::external_body] fn sub(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Map<int, V>| #[trigger] den(r, m) == vsub(den(self, m), den(o, m)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for Expr {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: Expr) -> bool { true }
  open spec fn sub_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
impl Mul for Expr { type Output = Expr;
  #[verifier::external_body] fn mul(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Map<int, V>| #[trigger] den(r, m) == vmul(den(self, m), den(o, m)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for Expr {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Expr) -> bool { true }
  open spec fn mul_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
impl Div for Expr { type Output = Expr;
  #[verifier::external_body] fn div(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Map<int, V>| #[trigger] den(r, m) == vdiv(den(self, m), den(o, m)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for Expr {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: Expr) -> bool { true }
  open spec fn div_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
pub struct When { pub c: Expr }
pub struct Then { pub c: Expr, pub a: Expr }
#[verifier::external_body] pub fn when(c: Expr) -> (r: When) ensures r.c == c { unimplemented!() }
impl When { #[verifier::external_body] pub fn then(self, a: Expr) -> (r: Then) ensures r.c == self.c, r.a == a { unimplemented!() } }
impl Then { #[verifier::external_body] pub fn otherwise(self, b: Expr) -> (r: Expr) ensures forall|m: Map<int, V>| #[trigger] den(r, m) == vif(den(self.c, m), den(self.a, m), den(b, m)) { unimplemented!() } }
impl Expr {
  #[verifier::external_body] pub fn alias(self, n: &str) -> (r: Expr) ensures nm(r) == skey(n@), forall|m: Map<int, V>| #[trigger] den(r, m) == den(self, m) { unimplemented!() }
  #[verifier::external_body] pub fn cast(self, t: DataType) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Map<int, V>| #[trigger] den(r, m) == (if t is Float64 { vcast(den(self, m)) } else { V::Odd }) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Map<int, V>| #[trigger] den(r, m) == vsqrt(den(self, m)) { unimplemented!() }
  #[verifier::external_body] pub fn eq(self, o: Expr) -> (r: Expr) ensures forall|m: Map<int, V>| #[trigger] den(r, m) == veq(den(self, m), den(o, m)) { unimplemented!() }
  #[verifier::external_body] pub fn neq(self, o: Expr) -> (r: Expr) ensures forall|m: Map<int, V>| #[trigger] den(r, m) == vneq(den(self, m), den(o, m)) { unimplemented!() }
  #[verifier::external_body] pub fn gt(self, o: Expr) -> (r: Expr) ensures forall|m: Map<int, V>| #[trigger] den(r, m) == vgt(den(self, m), den(o, m)) { unimplemented!() }
  #[verifier::external_body] pub fn lt(self, o: Expr) -> (r: Expr) ensures forall|m: Map<int, V>| #[trigger] den(r, m) == vgt(den(o, m), den(self, m)) { unimplemented!() }
}
// conversions: names stay what they are
pub trait Conv<B>: Sized { spec fn conv(self, b: B) -> bool; }
impl<'a> Conv<Key> for &'a str { open spec fn conv(self, b: Key) -> bool { kv(b) == skey(self@) } }
impl Conv<Series> for Series { open spec fn conv(self, b: Series) -> bool { b == self } }
#[verifier::external_body] pub fn vx_into<A: Conv<B>, B>(a: A) -> (r: B) ensures a.conv(r) { unimplemented!() }
// ---- columns and frames of one row ----
pub ghost struct Fr { pub names: Seq<int>, pub val: Map<int, V> }
#[verifier::external_body] pub struct Ca { x: usize }
pub type UInt32Chunked = Ca;
impl View for Ca { type V = Seq<u32>; uninterp spec fn view(&self) -> Seq<u32>; }
pub uninterp spec fn cname(c: Ca) -> int;
pub struct Series { pub x: usize }
pub uninterp spec fn isu(s: Series) -> bool;
pub uninterp spec fn uvals(s: Series) -> Seq<u32>;
pub uninterp spec fn sname(s: Series) -> int;
pub uninterp spec fn frame(s: Series) -> Fr;
impl Ca {
  #[verifier::external_body] pub fn from_vec(n: Key, v: Vec<u32>) -> (r: Ca) ensures r@ == v@, cname(r) == kv(n) { unimplemented!() }
  #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures isu(r), uvals(r) == self@, sname(r) == cname(self) { unimplemented!() }
  #[verifier::external_body] pub fn into_column(self) -> (r: Column) ensures isu(r.s), uvals(r.s) == self@, sname(r.s) == cname(self) { unimplemented!() }
}
pub struct Column { pub s: Series }
impl Column { #[verifier::external_body] pub fn Series(s: Series) -> (r: Column) ensures r.s == s { unimplemented!() } }
impl Series {
  #[verifier::external_body] pub fn u32<'a>(&'a self) -> (r: PolarsResult<&'a Ca>) ensures (r is Ok) == isu(*self), r is Ok ==> r->Ok_0@ == uvals(*self) { unimplemented!() }
  #[verifier::external_body] pub fn into_column(self) -> (r: Column) ensures r.s == self { unimplemented!() }
}
pub open spec fn ins(m: Map<int, V>, from: Map<int, V>, e: Seq<Expr>, n: int) -> Map<int, V> decreases n { if n <= 0 { m } else { ins(m, from, e, n - 1).insert(nm(e[n - 1]), den(e[n - 1], from)) } }
pub open spec fn insc(v: Seq<Column>, n: int) -> Map<int, V> decreases n { if n <= 0 { Map::empty() } else { insc(v, n - 1).insert(sname(v[n - 1].s), V::U(uvals(v[n - 1].s)[0] as int)) } }
#[verifier::external_body] pub struct DataFrame { x: usize }
pub type LazyFrame = DataFrame;
impl View for DataFrame { type V = Fr; uninterp spec fn view(&self) -> Fr; }
pub trait Exprs: Sized { spec fn es(self) -> Seq<Expr>; }
impl<const N: usize> Exprs for [Expr; N] { open spec fn es(self) -> Seq<Expr> { self@ } }
impl<'a, const N: usize> Exprs for &'a [Expr; N] { open spec fn es(self) -> Seq<Expr> { self@ } }
impl Exprs for Vec<Expr> { open spec fn es(self) -> Seq<Expr> { self@ } }
impl DataFrame {
  #[verifier::external_body] pub fn new(v: Vec<Column>) -> (r: PolarsResult<DataFrame>)
    ensures (forall|i: int| 0 <= i < v@.len() ==> isu((#[trigger] v@[i]).s) && uvals(v@[i].s).len() == 1) && (forall|i: int, j: int| 0 <= i < j < v@.len() ==> sname((#[trigger] v@[i]).s) != sname((#[trigger] v@[j]).s)) ==> r is Ok && r->Ok_0@.val == insc(v@, v@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn lazy(self) -> (r: DataFrame) ensures r == self { unimplemented!() }
  // an expression over a column that does not exist fails
  #[verifier::external_body] pub fn collect(self) -> (r: PolarsResult<DataFrame>) ensures (forall|k: int| self@.val.dom().contains(k) ==> (#[trigger] self@.val[k]) != V::Odd) ==> r is Ok, r is Ok ==> r->Ok_0 == self { unimplemented!() }
  #[verifier::external_body] pub fn with_columns<E: Exprs>(self, e: E) -> (r: DataFrame) ensures r@.val == ins(self@.val, self@.val, e.es(), e.es().len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn with_column(self, e: Expr) -> (r: DataFrame) ensures r@.val == self@.val.insert(nm(e), den(e, self@.val)) { unimplemented!() }
  #[verifier::external_body] pub fn select<E: Exprs>(self, e: E) -> (r: DataFrame) ensures r@.val == ins(Map::empty(), self@.val, e.es(), e.es().len() as int), r@.names == Seq::new(e.es().len(), |i: int| nm(e.es()[i])) { unimplemented!() }
  #[verifier::external_body] pub fn into_struct(self, n: Key) -> (r: StructChunked) ensures frame(r.s) == self@ { unimplemented!() }
}
pub struct StructChunked { pub s: Series }
impl StructChunked { #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures r == self.s { unimplemented!() } }
}
