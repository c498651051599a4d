//@use polars (version pinned in Cargo.lock): lazy expressions over whole columns
verus!{
// ---- trusted: Polars expressions over a frame of numeric columns: a number, or a column of optional numbers ----
pub ghost struct Fr { pub n: nat, pub cols: Map<int, Seq<Option<real>>> }
pub ghost enum V { S(real), C(Seq<Option<real>>), Odd }
pub uninterp spec fn skey(s: Seq<char>) -> int;
//@STRKEYS
pub struct Name { pub x: usize }
#[verifier::external_body] pub fn vx_name() -> Name { unimplemented!() }
pub enum DataType { UInt32, Float64, Float32, String }
pub type LazyFrame = DataFrame;
pub struct PolarsError { pub x: usize }
#[verifier::external] impl std::fmt::Debug for PolarsError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub type PolarsResult<T> = Result<T, PolarsError>;
#[verifier::external_body] pub struct Expr { x: usize }
pub uninterp spec fn den(e: Expr, m: Fr) -> V;
pub uninterp spec fn nm(e: Expr) -> int;
pub open spec fn om(a: Option<real>, f: spec_fn(real) -> real) -> Option<real> { match a { Some(x) => Some(f(x)), None => None } }
pub open spec fn o2(a: Option<real>, b: Option<real>, f: spec_fn(real, real) -> real) -> Option<real> { match (a, b) { (Some(x), Some(y)) => Some(f(x, y)), _ => None } }
pub open spec fn bin(a: V, b: V, f: spec_fn(real, real) -> real) -> V { match (a, b) {
  (V::S(x), V::S(y)) => V::S(f(x, y)), (V::S(x), V::C(t)) => V::C(Seq::new(t.len(), |i: int| om(t[i], |y: real| f(x, y)))),
  (V::C(s), V::S(y)) => V::C(Seq::new(s.len(), |i: int| om(s[i], |x: real| f(x, y)))),
  (V::C(s), V::C(t)) => if s.len() == t.len() { V::C(Seq::new(s.len(), |i: int| o2(s[i], t[i], f))) } else { V::Odd }, _ => V::Odd } }
pub open spec fn fadd() -> spec_fn(real, real) -> real { |x: real, y: real| x + y }
pub open spec fn fsub() -> spec_fn(real, real) -> real { |x: real, y: real| x - y }
pub open spec fn fmul() -> spec_fn(real, real) -> real { |x: real, y: real| x * y }
// what a division by zero gives is unknown
pub open spec fn fdiv() -> spec_fn(real, real) -> real { |x: real, y: real| x / y }
pub open spec fn nozero(v: V) -> bool { match v { V::S(y) => y != 0real, V::C(s) => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some ==> s[i]->0 != 0real, V::Odd => false } }
pub open spec fn vdiv(a: V, b: V) -> V { if nozero(b) { bin(a, b, fdiv()) } else { V::Odd } }
pub uninterp spec fn EV() -> real;
impl R { #[verifier::external_body] pub fn c_E() -> (r: R) ensures r@ == EV() { unimplemented!() } }
pub open spec fn vneg(v: V) -> V { match v { V::S(x) => V::S(-x), V::C(s) => V::C(Seq::new(s.len(), |i: int| om(s[i], |x: real| -x))), V::Odd => V::Odd } }
pub open spec fn vexp(v: V) -> V { match v { V::S(x) => V::S(rexp(x)), V::C(s) => V::C(Seq::new(s.len(), |i: int| om(s[i], |x: real| rexp(x)))), V::Odd => V::Odd } }
// the logarithm of a number that is not positive is not a number
pub open spec fn vln(v: V) -> V { match v { V::C(s) => if (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some ==> s[i]->0 > 0real) { V::C(Seq::new(s.len(), |i: int| om(s[i], |x: real| rln(x)))) } else { V::Odd }, _ => V::Odd } }
pub open spec fn full(s: Seq<Option<real>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some }
pub open spec fn cmean(v: V) -> V { match v { V::C(s) => if full(s) && s.len() > 0 { V::S(osum(s, s.len() as int) / (s.len() as real)) } else { V::Odd }, _ => V::Odd } }
pub open spec fn osum(s: Seq<Option<real>>, n: int) -> real decreases n { if n <= 0 { 0real } else { osum(s, n - 1) + (match s[n - 1] { Some(x) => x, None => 0real }) } }
impl Add for Expr { type Output = Expr;
  #[verifier::external_body] fn add(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == bin(den(self, m), den(o, m), fadd()) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for Expr {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: Expr) -> bool { true }
  open spec fn add_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
impl Sub for Expr { type Output = Expr;
  #[verifier::external_body] fn sub(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == bin(den(self, m), den(o, m), fsub()) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for Expr {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: Expr) -> bool { true }
  open spec fn sub_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
impl Mul for Expr { type Output = Expr;
  #[verifier::external_body] fn mul(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == bin(den(self, m), den(o, m), fmul()) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for Expr {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Expr) -> bool { true }
  open spec fn mul_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
impl Div for Expr { type Output = Expr;
  #[verifier::external_body] fn div(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == vdiv(den(self, m), den(o, m)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for Expr {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: Expr) -> bool { true }
  open spec fn div_spec(self, rhs: Expr) -> Expr { arbitrary() }
}
pub open spec fn cabs(v: V) -> V { match v { V::S(x) => V::S(rabs(x)), V::C(s) => V::C(Seq::new(s.len(), |i: int| om(s[i], |x: real| rabs(x)))), V::Odd => V::Odd } }
pub open spec fn csum(v: V) -> V { match v { V::S(x) => V::S(x), V::C(s) => V::S(osum(s, s.len() as int)), V::Odd => V::Odd } }
impl Neg for Expr { type Output = Expr;
  #[verifier::external_body] fn neg(self) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == vneg(den(self, m)) { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for Expr {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> Expr { arbitrary() }
}
pub enum NullBehavior { Drop, Ignore }
pub trait Lit: Sized { spec fn lv(self) -> V; }
impl Lit for i32 { open spec fn lv(self) -> V { V::S(self as real) } }
impl Lit for R { open spec fn lv(self) -> V { V::S(self@) } }
#[verifier::external_body] pub fn lit<T: Lit>(v: T) -> (r: Expr) ensures forall|m: Fr| #[trigger] den(r, m) == v.lv() { unimplemented!() }
#[verifier::external_body] pub fn col(s: &str) -> (r: Expr) ensures nm(r) == skey(s@), forall|m: Fr| #[trigger] den(r, m) == (if m.cols.dom().contains(skey(s@)) { V::C(m.cols[skey(s@)]) } else { V::Odd }) { unimplemented!() }
#[verifier::external_body] pub fn len() -> (r: Expr) ensures forall|m: Fr| #[trigger] den(r, m) == V::S(m.n as real) { unimplemented!() }
pub open spec fn lag(v: V, k: int, b: NullBehavior) -> V { match v { V::C(s) => if k > 0 && b is Ignore { V::C(Seq::new(s.len(), |i: int| if i < k { None } else { o2(s[i], s[i - k], fsub()) })) } else { V::Odd }, _ => V::Odd } }
impl Expr {
  #[verifier::external_body] pub fn alias(self, n: &str) -> (r: Expr) ensures nm(r) == skey(n@), forall|m: Fr| #[trigger] den(r, m) == den(self, m) { unimplemented!() }
  #[verifier::external_body] pub fn cast(self, t: DataType) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == (if t is Float64 { den(self, m) } else { V::Odd }) { unimplemented!() }
  #[verifier::external_body] pub fn exp(self) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == vexp(den(self, m)) { unimplemented!() }
  #[verifier::external_body] pub fn log(self, base: R) -> (r: Expr) ensures nm(r) == nm(self), base@ == EV() ==> forall|m: Fr| #[trigger] den(r, m) == vln(den(self, m)) { unimplemented!() }
  #[verifier::external_body] pub fn mean(self) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == cmean(den(self, m)) { unimplemented!() }
  #[verifier::external_body] pub fn diff(self, k: i64, b: NullBehavior) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == lag(den(self, m), k as int, b) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == cabs(den(self, m)) { unimplemented!() }
  #[verifier::external_body] pub fn sum(self) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == csum(den(self, m)) { unimplemented!() }
}
// ---- series and frames ----
pub struct Series { pub x: usize }
pub struct Column { pub s: Series }
pub uninterp spec fn nums(s: Series) -> Seq<Option<real>>;
pub uninterp spec fn flt(s: Series) -> bool;
pub uninterp spec fn fields(s: Series) -> Seq<Series>;
impl Clone for Series { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Ca { x: usize }
impl View for Ca { type V = Seq<Option<R>>; uninterp spec fn view(&self) -> Seq<Option<R>>; }
impl Ca { #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<R>) ensures r == (if i < self@.len() { self@[i as int] } else { None }) { unimplemented!() } }
impl Series {
  // a value and its text are the same label
  #[verifier::external_body] pub fn cast(&self, t: &DataType) -> (r: PolarsResult<Series>) ensures r is Ok, nums(r->Ok_0) == nums(*self) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == nums(*self).len() { unimplemented!() }
  #[verifier::external_body] pub fn f64<'a>(&'a self) -> (r: PolarsResult<&'a Ca>) ensures (r is Ok) == flt(*self), r is Ok ==> r->Ok_0@.len() == nums(*self).len() && forall|i: int| 0 <= i < nums(*self).len() ==> (match nums(*self)[i] { Some(x) => (#[trigger] r->Ok_0@[i]) is Some && r->Ok_0@[i]->0@ == x, None => r->Ok_0@[i] is None }) { unimplemented!() }
  #[verifier::external_body] pub fn from_vec(n: Name, v: Vec<R>) -> (r: Series) ensures flt(r), rvals(r) == v@ { unimplemented!() }
}
pub uninterp spec fn rvals(s: Series) -> Seq<R>;
impl Column { #[verifier::external_body] pub fn as_materialized_series(&self) -> (r: &Series) ensures *r == self.s { unimplemented!() } }
pub struct StructChunked { pub s: Series }
impl StructChunked {
  #[verifier::external_body] pub fn from_series<const N: usize>(n: Name, len: usize, f: [&Series; N]) -> (r: PolarsResult<StructChunked>) ensures r is Ok, fields(r->Ok_0.s).len() == N, forall|i: int| 0 <= i < N ==> (#[trigger] fields(r->Ok_0.s)[i]) == *f@[i] { unimplemented!() }
  #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures r == self.s { unimplemented!() }
}
#[verifier::external_body] pub struct DataFrame { x: usize }
impl View for DataFrame { type V = Fr; uninterp spec fn view(&self) -> Fr; }
// no expression in it fails
pub uninterp spec fn fine(d: DataFrame) -> bool;
pub open spec fn colof(v: V) -> Seq<Option<real>> { match v { V::S(x) => seq![Some(x)], V::C(s) => s, V::Odd => Seq::empty() } }
pub open spec fn sel(m: Map<int, Seq<Option<real>>>, from: Fr, e: Seq<Expr>, n: int) -> Map<int, Seq<Option<real>>> decreases n { if n <= 0 { m } else { sel(m, from, e, n - 1).insert(nm(e[n - 1]), colof(den(e[n - 1], from))) } }
pub uninterp spec fn present(m: Fr) -> Fr;
pub axiom fn present_of(m: Fr) ensures present(m).cols.dom() == m.cols.dom(), forall|k: int| m.cols.dom().contains(k) ==> (#[trigger] present(m).cols[k]).len() == present(m).n && full(present(m).cols[k]) && forall|i: int| 0 <= i < present(m).n ==> m.cols[k].contains(#[trigger] present(m).cols[k][i]);
pub uninterp spec fn frame(s: Series) -> Fr;
// ---- groups: the distinct values of a column, and the rows of each ----
pub uninterp spec fn keys(s: Seq<Option<real>>) -> Seq<Option<real>>;
pub axiom fn keys_of(s: Seq<Option<real>>) ensures keys(s).no_duplicates(), forall|g: int| 0 <= g < keys(s).len() ==> s.contains(#[trigger] keys(s)[g]), forall|i: int| 0 <= i < s.len() ==> keys(s).contains(#[trigger] s[i]);
pub open spec fn pick(c: Seq<Option<real>>, k: Seq<Option<real>>, v: Option<real>, n: int) -> Seq<Option<real>> decreases n { if n <= 0 { Seq::empty() } else if k[n - 1] == v { pick(c, k, v, n - 1).push(c[n - 1]) } else { pick(c, k, v, n - 1) } }
pub open spec fn grp(m: Fr, k: int, v: Option<real>) -> Fr { Fr { n: pick(m.cols[k], m.cols[k], v, m.n as int).len(), cols: m.cols.map_values(|c: Seq<Option<real>>| pick(c, m.cols[k], v, m.n as int)) } }
pub open spec fn sval(v: V) -> Option<real> { match v { V::S(x) => Some(x), _ => None } }
pub open spec fn aggs(m: Fr, k: int, e: Seq<Expr>, n: int) -> Map<int, Seq<Option<real>>> decreases n { if n <= 0 { Map::empty().insert(k, keys(m.cols[k])) } else { aggs(m, k, e, n - 1).insert(nm(e[n - 1]), Seq::new(keys(m.cols[k]).len(), |g: int| sval(den(e[n - 1], grp(m, k, keys(m.cols[k])[g]))))) } }
// the same with two columns as the key
pub uninterp spec fn keys2(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<(Option<real>, Option<real>)>;
pub axiom fn keys2_of(a: Seq<Option<real>>, b: Seq<Option<real>>) requires a.len() == b.len() ensures keys2(a, b).no_duplicates(), a.len() > 0 ==> keys2(a, b).len() > 0, forall|g: int| 0 <= g < keys2(a, b).len() ==> exists|i: int| 0 <= i < a.len() && #[trigger] keys2(a, b)[g] == (#[trigger] a[i], b[i]), forall|i: int| 0 <= i < a.len() ==> keys2(a, b).contains((#[trigger] a[i], b[i]));
pub open spec fn pick2(c: Seq<Option<real>>, a: Seq<Option<real>>, b: Seq<Option<real>>, v: (Option<real>, Option<real>), n: int) -> Seq<Option<real>> decreases n { if n <= 0 { Seq::empty() } else if (a[n - 1], b[n - 1]) == v { pick2(c, a, b, v, n - 1).push(c[n - 1]) } else { pick2(c, a, b, v, n - 1) } }
pub open spec fn grp2(m: Fr, k: int, l: int, v: (Option<real>, Option<real>)) -> Fr { Fr { n: pick2(m.cols[k], m.cols[k], m.cols[l], v, m.n as int).len(), cols: m.cols.map_values(|c: Seq<Option<real>>| pick2(c, m.cols[k], m.cols[l], v, m.n as int)) } }
pub open spec fn ky(m: Fr, k: int, l: int) -> Seq<(Option<real>, Option<real>)> { keys2(m.cols[k], m.cols[l]) }
pub open spec fn aggs2(m: Fr, k: int, l: int, e: Seq<Expr>, n: int) -> Map<int, Seq<Option<real>>> decreases n { if n <= 0 { Map::empty().insert(k, Seq::new(ky(m, k, l).len(), |g: int| ky(m, k, l)[g].0)).insert(l, Seq::new(ky(m, k, l).len(), |g: int| ky(m, k, l)[g].1)) } else { aggs2(m, k, l, e, n - 1).insert(nm(e[n - 1]), Seq::new(ky(m, k, l).len(), |g: int| sval(den(e[n - 1], grp2(m, k, l, ky(m, k, l)[g]))))) } }
pub struct Groups { pub x: usize }
impl Groups {
  pub uninterp spec fn m(self) -> Fr;
  pub uninterp spec fn ks(self) -> Seq<int>;
  pub uninterp spec fn ok(self) -> bool;
  #[verifier::external_body] pub fn agg<const N: usize>(self, e: [Expr; N]) -> (r: DataFrame)
    ensures ({ let k = self.ks()[0]; self.ks().len() == 1 && self.m().cols.dom().contains(k) && (forall|i: int, g: int| #![trigger e@[i], keys(self.m().cols[k])[g]] 0 <= i < N && 0 <= g < keys(self.m().cols[k]).len() ==> den(e@[i], grp(self.m(), k, keys(self.m().cols[k])[g])) is S)
      ==> (self.ok() ==> fine(r)) && r@ == (Fr { n: keys(self.m().cols[k]).len(), cols: aggs(self.m(), k, e@, N as int) }) }),
      ({ let (k, l) = (self.ks()[0], self.ks()[1]); self.ks().len() == 2 && k != l && self.m().cols.dom().contains(k) && self.m().cols.dom().contains(l) && (forall|i: int, g: int| #![trigger e@[i], ky(self.m(), k, l)[g]] 0 <= i < N && 0 <= g < ky(self.m(), k, l).len() ==> den(e@[i], grp2(self.m(), k, l, ky(self.m(), k, l)[g])) is S)
      ==> (self.ok() ==> fine(r)) && r@ == (Fr { n: ky(self.m(), k, l).len(), cols: aggs2(self.m(), k, l, e@, N as int) }) }) { unimplemented!() }
}
// an aggregate over the rows that share the row's value of a column
pub open spec fn vover(e: Expr, m: Fr, k: int) -> V { if m.cols.dom().contains(k) && (forall|i: int| 0 <= i < m.n ==> den(e, grp(m, k, #[trigger] m.cols[k][i])) is S) { V::C(Seq::new(m.n, |i: int| sval(den(e, grp(m, k, m.cols[k][i]))))) } else { V::Odd } }
pub open spec fn vdot(a: V, b: V) -> V { csum(bin(a, b, fmul())) }
impl Expr {
  #[verifier::external_body] pub fn over(self, k: [Expr; 1]) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == vover(self, m, nm(k@[0])) { unimplemented!() }
  #[verifier::external_body] pub fn dot(self, o: Expr) -> (r: Expr) ensures nm(r) == nm(self), forall|m: Fr| #[trigger] den(r, m) == vdot(den(self, m), den(o, m)) { unimplemented!() }
}
impl DataFrame {
  // every expression reads the columns as they were
  #[verifier::external_body] pub fn with_columns<const N: usize>(self, e: [Expr; N]) -> (r: DataFrame) ensures (forall|i: int| 0 <= i < N ==> den(#[trigger] e@[i], self@) is C) ==> (fine(self) ==> fine(r)) && r@ == (Fr { n: self@.n, cols: sel(self@.cols, self@, e@, N as int) }) { unimplemented!() }
}
pub struct SortOpts { pub x: usize }
impl Default for SortOpts { #[verifier::external_body] fn default() -> SortOpts { unimplemented!() } }
pub trait AsCol: Sized { spec fn ser(self) -> Series; }
impl AsCol for Series { open spec fn ser(self) -> Series { self } }
impl<'a> AsCol for &'a Series { open spec fn ser(self) -> Series { *self } }
#[verifier::external_body] pub fn vx_col<S: AsCol>(s: S) -> (r: Series) ensures r == s.ser() { unimplemented!() }
pub open spec fn insc<'a, const N: usize>(v: [(&'a str, Series); N], n: int) -> Map<int, Seq<Option<real>>> decreases n { if n <= 0 { Map::empty() } else { insc(v, n - 1).insert(skey(v@[n - 1].0@), nums(v@[n - 1].1)) } }
#[verifier::external_body] pub fn vx_df<'a, const N: usize>(v: [(&'a str, Series); N]) -> (r: PolarsResult<DataFrame>)
  ensures N > 0 && (forall|i: int| 0 <= i < N ==> nums((#[trigger] v@[i]).1).len() == nums(v@[0].1).len()) && (forall|i: int, j: int| 0 <= i < j < N ==> skey((#[trigger] v@[i]).0@) != skey((#[trigger] v@[j]).0@)) ==> r is Ok && fine(r->Ok_0) && r->Ok_0@ == (Fr { n: nums(v@[0].1).len(), cols: insc(v, N as int) }) { unimplemented!() }
// rows in the order of a column: the same rows, ascending in the column
pub uninterp spec fn order(s: Seq<Option<real>>, i: int) -> int;
pub open spec fn by(m: Fr, k: int) -> Fr { Fr { n: m.n, cols: m.cols.map_values(|c: Seq<Option<real>>| perm(c, m.cols[k])) } }
pub open spec fn perm(c: Seq<Option<real>>, k: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(c.len(), |i: int| c[order(k, i)]) }
pub axiom fn order_of(s: Seq<Option<real>>) ensures forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] order(s, i)) < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] order(s, i)) != (#[trigger] order(s, j)) && (s[order(s, i)] is Some && s[order(s, j)] is Some ==> s[order(s, i)]->0 <= s[order(s, j)]->0);
pub trait Cols: Sized { spec fn ks(self) -> Seq<int>; }
impl<'a> Cols for [&'a str; 1] { open spec fn ks(self) -> Seq<int> { seq![skey(self@[0]@)] } }
impl DataFrame {
  #[verifier::external_body] pub fn lazy(self) -> (r: DataFrame) ensures r == self { unimplemented!() }
  #[verifier::external_body] pub fn sort<C: Cols>(self, c: C, o: SortOpts) -> (r: DataFrame) ensures c.ks().len() == 1 && self@.cols.dom().contains(c.ks()[0]) ==> fine(r) && r@ == by(self@, c.ks()[0]) { unimplemented!() }
  #[verifier::external_body] pub fn select<const N: usize>(self, e: [Expr; N]) -> (r: DataFrame)
    ensures N > 0 && (forall|i: int| 0 <= i < N ==> den(#[trigger] e@[i], self@) is S) ==> (fine(self) ==> fine(r)) && r@ == (Fr { n: 1, cols: sel(Map::empty(), self@, e@, N as int) }),
      N > 0 && (forall|i: int| 0 <= i < N ==> den(#[trigger] e@[i], self@) is C) ==> (fine(self) ==> fine(r)) && r@ == (Fr { n: den(e@[0], self@)->C_0.len(), cols: sel(Map::empty(), self@, e@, N as int) }) { unimplemented!() }
  #[verifier::external_body] pub fn with_column(self, e: Expr) -> (r: DataFrame) ensures den(e, self@) is C ==> (fine(self) ==> fine(r)) && r@ == (Fr { n: self@.n, cols: self@.cols.insert(nm(e), den(e, self@)->C_0) }) { unimplemented!() }
  // rows without a missing value, in order
  #[verifier::external_body] pub fn drop_nulls(self, o: Option<usize>) -> (r: DataFrame) ensures fine(r), o is None ==> r@ == present(self@) { unimplemented!() }
  #[verifier::external_body] pub fn group_by<const N: usize>(self, e: [Expr; N]) -> (r: Groups) ensures fine(self) ==> r.ok(), r.m() == self@, r.ks().len() == N, forall|i: int| 0 <= i < N ==> (#[trigger] r.ks()[i]) == nm(e@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn into_struct(self, n: Name) -> (r: StructChunked) ensures frame(r.s) == self@ { unimplemented!() }
  #[verifier::external_body] pub fn collect(self) -> (r: PolarsResult<DataFrame>) ensures fine(self) ==> r is Ok, r is Ok ==> r->Ok_0 == self { unimplemented!() }
  #[verifier::external_body] pub fn drop_in_place(&mut self, s: &str) -> (r: PolarsResult<Column>) ensures (r is Ok) == old(self)@.cols.dom().contains(skey(s@)), r is Ok ==> flt(r->Ok_0.s) && nums(r->Ok_0.s) == old(self)@.cols[skey(s@)] { unimplemented!() }
}
}
