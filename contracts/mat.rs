//@use faer (version pinned in Cargo.lock): products, transposition, blocks and solvers
verus! {
// ---- matrices ----
pub type F1 = spec_fn(int) -> real;
pub type F2 = spec_fn(int, int) -> real;
pub type B2 = spec_fn(int, int) -> bool;
// rows, columns, entries, and which entries are NaN
pub struct Mx { pub r: int, pub c: int, pub e: F2, pub bad: B2 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Matrix<T> { p: std::marker::PhantomData<T> }
impl<T> Copy for Matrix<T> {}
impl<T> Clone for Matrix<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Mat<T> = Matrix<T>;
pub type MatRef<T> = Matrix<T>;
pub uninterp spec fn mview(m: Matrix<R>) -> Mx;
impl View for Matrix<R> { type V = Mx; open spec fn view(&self) -> Mx { mview(*self) } }
pub axiom fn mx_dims(m: Matrix<R>) ensures m@.r >= 0, m@.c >= 0;
#[verifier::external_body] pub fn is_nan(x: &R) -> (r: bool) ensures r == nanp(*x) { unimplemented!() }

// the sum of f over 0..n
pub open spec fn sum(f: F1, n: int) -> real decreases n { if n <= 0 { 0real } else { sum(f, n - 1) + f(n - 1) } }
pub open spec fn mm(a: F2, b: F2, k: int) -> F2 { |i: int, j: int| sum(|t: int| a(i, t) * b(t, j), k) }
pub open spec fn tr(a: F2) -> F2 { |i: int, j: int| a(j, i) }
pub open spec fn idm(i: int, j: int) -> real { if i == j { 1real } else { 0real } }

#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Diag<T> { p: std::marker::PhantomData<T> }
impl View for Diag<R> { type V = Seq<R>; uninterp spec fn view(&self) -> Seq<R>; }
impl<T> Copy for Diag<T> {}
impl<T> Clone for Diag<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Mul<Matrix<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn mul(self, o: Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == o@.c, r@.e == mm(self@.e, o@.e, self@.c) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Matrix<R>> for Matrix<R> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Matrix<R>) -> bool { self@.c == rhs@.r }
  open spec fn mul_spec(self, rhs: Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl Sub<Matrix<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn sub(self, o: Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) - (o@.e)(i, j)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Matrix<R>> for Matrix<R> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn sub_spec(self, rhs: Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl Add<Matrix<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn add(self, o: Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) + (o@.e)(i, j)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Matrix<R>> for Matrix<R> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn add_spec(self, rhs: Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'b> Mul<&'b Matrix<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn mul(self, o: &'b Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == o@.c, r@.e == mm(self@.e, o@.e, self@.c) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b Matrix<R>> for Matrix<R> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: &'b Matrix<R>) -> bool { self@.c == rhs@.r }
  open spec fn mul_spec(self, rhs: &'b Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'b> Sub<&'b Matrix<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn sub(self, o: &'b Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) - (o@.e)(i, j)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b Matrix<R>> for Matrix<R> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn sub_spec(self, rhs: &'b Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'b> Add<&'b Matrix<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn add(self, o: &'b Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) + (o@.e)(i, j)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b Matrix<R>> for Matrix<R> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn add_spec(self, rhs: &'b Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'a> Mul<Matrix<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn mul(self, o: Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == o@.c, r@.e == mm(self@.e, o@.e, self@.c) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Matrix<R>> for &'a Matrix<R> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Matrix<R>) -> bool { self@.c == rhs@.r }
  open spec fn mul_spec(self, rhs: Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'a> Sub<Matrix<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn sub(self, o: Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) - (o@.e)(i, j)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<Matrix<R>> for &'a Matrix<R> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn sub_spec(self, rhs: Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'a> Add<Matrix<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn add(self, o: Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) + (o@.e)(i, j)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<Matrix<R>> for &'a Matrix<R> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn add_spec(self, rhs: Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'a,'b> Mul<&'b Matrix<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn mul(self, o: &'b Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == o@.c, r@.e == mm(self@.e, o@.e, self@.c) { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::MulSpecImpl<&'b Matrix<R>> for &'a Matrix<R> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: &'b Matrix<R>) -> bool { self@.c == rhs@.r }
  open spec fn mul_spec(self, rhs: &'b Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'a,'b> Sub<&'b Matrix<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn sub(self, o: &'b Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) - (o@.e)(i, j)) { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::SubSpecImpl<&'b Matrix<R>> for &'a Matrix<R> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn sub_spec(self, rhs: &'b Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl<'a,'b> Add<&'b Matrix<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn add(self, o: &'b Matrix<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) + (o@.e)(i, j)) { unimplemented!() } }
impl<'a,'b> vstd::std_specs::ops::AddSpecImpl<&'b Matrix<R>> for &'a Matrix<R> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b Matrix<R>) -> bool { self@.r == rhs@.r && self@.c == rhs@.c }
  open spec fn add_spec(self, rhs: &'b Matrix<R>) -> Matrix<R> { arbitrary() }
}
impl Mul<Diag<R>> for Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn mul(self, o: Diag<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) * o@[j]@) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Diag<R>> for Matrix<R> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Diag<R>) -> bool { self@.c == rhs@.len() }
  open spec fn mul_spec(self, rhs: Diag<R>) -> Matrix<R> { arbitrary() }
}
impl<'a> Mul<Diag<R>> for &'a Matrix<R> { type Output = Matrix<R>;
  #[verifier::external_body]
  fn mul(self, o: Diag<R>) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.c, r@.e == (|i: int, j: int| (self@.e)(i, j) * o@[j]@) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Diag<R>> for &'a Matrix<R> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Diag<R>) -> bool { self@.c == rhs@.len() }
  open spec fn mul_spec(self, rhs: Diag<R>) -> Matrix<R> { arbitrary() }
}
pub open spec fn blk(m: Mx, a: int, b: int, c: int, d: int) -> Mx { Mx { r: b - a, c: d - c, e: |i: int, j: int| (m.e)(a + i, c + j), bad: |i: int, j: int| (m.bad)(a + i, c + j) } }
pub trait AsM { spec fn m(self) -> Mx; }
impl AsM for Matrix<R> { open spec fn m(self) -> Mx { self@ } }
impl<'a> AsM for &'a Matrix<R> { open spec fn m(self) -> Mx { self@ } }
impl Matrix<R> {
  #[verifier::external_body] pub fn new() -> (r: Matrix<R>) ensures r@.r == 0, r@.c == 0 { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(a: usize, b: usize) -> (r: Matrix<R>) ensures r@.r == 0, r@.c == 0 { unimplemented!() }
  #[verifier::external_body] pub fn zeros(a: usize, b: usize) -> (r: Matrix<R>) ensures r@.r == a, r@.c == b, r@.e == (|i: int, j: int| 0real) { unimplemented!() }
  #[verifier::external_body] pub fn full(a: usize, b: usize, v: R) -> (r: Matrix<R>) ensures r@.r == a, r@.c == b, r@.e == (|i: int, j: int| v@) { unimplemented!() }
  #[verifier::external_body] pub fn from_fn<F: Fn(usize, usize) -> R>(a: usize, b: usize, f: F) -> (r: Matrix<R>)
    requires forall|i: usize, j: usize| i < a && j < b ==> #[trigger] f.requires((i, j))
    ensures r@.r == a, r@.c == b, forall|i: usize, j: usize| i < a && j < b ==> exists|v: R| f.ensures((i, j), v) && #[trigger] (r@.e)(i as int, j as int) == v@ { unimplemented!() }
  #[verifier::external_body] pub fn from_row_major_slice(s: &[R], a: usize, b: usize) -> (r: Matrix<R>) requires s@.len() == a * b ensures r@.r == a, r@.c == b, r@.e == (|i: int, j: int| s@[i * b + j]@) { unimplemented!() }
  #[verifier::external_body] pub fn from_column_major_slice(s: &[R], a: usize, b: usize) -> (r: Matrix<R>) requires s@.len() == a * b ensures r@.r == a, r@.c == b, r@.e == (|i: int, j: int| s@[i + j * a]@) { unimplemented!() }
  #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self@.r { unimplemented!() }
  #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self@.c { unimplemented!() }
  #[verifier::external_body] pub fn vx_at(&self, i: usize, j: usize) -> (r: R) requires i < self@.r, j < self@.c ensures r@ == (self@.e)(i as int, j as int), nanp(r) == (self@.bad)(i as int, j as int) { unimplemented!() }
  #[verifier::external_body] pub fn vx_set(&mut self, i: usize, j: usize, v: R) requires i < old(self)@.r, j < old(self)@.c
    ensures final(self)@.r == old(self)@.r, final(self)@.c == old(self)@.c, final(self)@.e == (|a: int, b: int| if a == i && b == j { v@ } else { (old(self)@.e)(a, b) }) { unimplemented!() }
  #[verifier::external_body] pub fn vx_block(&self, a: usize, b: usize, c: usize, d: usize) -> (r: Matrix<R>) requires a <= b <= self@.r, c <= d <= self@.c
    ensures r@ == blk(self@, a as int, b as int, c as int, d as int), r@.r == b - a, r@.c == d - c, r@.e == (|i: int, j: int| (self@.e)(a + i, c + j)), r@.bad == (|i: int, j: int| (self@.bad)(a + i, c + j)) { unimplemented!() }
  // the entries of a one-row or one-column matrix
  #[verifier::external_body] pub fn vx_vec(&self) -> (r: Vec<R>) requires self@.r == 1 || self@.c == 1
    ensures self@.r == 1 ==> r@.len() == self@.c && (forall|j: int| 0 <= j < self@.c ==> (#[trigger] r@[j])@ == (self@.e)(0, j) && nanp(r@[j]) == (self@.bad)(0, j)),
      self@.r != 1 ==> r@.len() == self@.r && (forall|j: int| 0 <= j < self@.r ==> (#[trigger] r@[j])@ == (self@.e)(j, 0) && nanp(r@[j]) == (self@.bad)(j, 0)) { unimplemented!() }
  #[verifier::external_body] pub fn vx_cols(&self) -> (r: Vec<ColV<R>>)
    ensures r@.len() == self@.c, forall|j: int| 0 <= j < self@.c ==> (#[trigger] r@[j])@.len() == self@.r && (forall|i: int| 0 <= i < self@.r ==> (#[trigger] r@[j]@[i])@ == (self@.e)(i, j) && nanp(r@[j]@[i]) == (self@.bad)(i, j)) { unimplemented!() }
  #[verifier::external_body] pub fn col_as_slice(&self, j: usize) -> (r: &[R]) requires j < self@.c ensures r@.len() == self@.r, forall|i: int| 0 <= i < self@.r ==> (#[trigger] r@[i])@ == (self@.e)(i, j as int) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.r * self@.c { unimplemented!() }
  #[verifier::external_body] pub fn col(&self, j: usize) -> (r: ColV<R>) requires j < self@.c ensures r@.len() == self@.r, forall|i: int| 0 <= i < self@.r ==> (#[trigger] r@[i])@ == (self@.e)(i, j as int) { unimplemented!() }
  #[verifier::external_body] pub fn transpose(&self) -> (r: Matrix<R>) ensures r@.r == self@.c, r@.c == self@.r, r@.e == tr(self@.e) { unimplemented!() }
  #[verifier::external_body] pub fn sum(&self) -> (r: R) ensures self@.c == 1 ==> r@ == sum(|i: int| (self@.e)(i, 0), self@.r) { unimplemented!() }
  #[verifier::external_body] pub fn col_piv_qr(&self) -> (r: Solver) requires self@.r == self@.c ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn thin_svd(&self) -> (r: Result<Solver, ()>) requires self@.r == self@.c ensures r is Ok == svok(self@), r is Ok ==> r->Ok_0@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn llt(&self, s: Side) -> (r: Result<Solver, ()>) requires self@.r == self@.c ensures r is Ok ==> r->Ok_0@ == self@ { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ColV<T> { p: std::marker::PhantomData<T> }
impl View for ColV<R> { type V = Seq<R>; uninterp spec fn view(&self) -> Seq<R>; }
pub open spec fn sqn(s: Seq<R>, n: int) -> real { sum(|i: int| s[i]@ * s[i]@, n) }
impl ColV<R> {
  #[verifier::external_body] pub fn vx_vec(&self) -> (r: Vec<R>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn squared_norm_l2(&self) -> (r: R) ensures r@ == sqn(self@, self@.len() as int) { unimplemented!() }
}
pub struct ColRef<T> { p: std::marker::PhantomData<T> }
impl ColRef<R> {
  #[verifier::external_body] pub fn from_slice(s: &[R]) -> (r: Matrix<R>) ensures r@.r == s@.len(), r@.c == 1, r@.e == (|i: int, j: int| s@[i]@) { unimplemented!() }
}
impl Matrix<R> { #[verifier::external_body] pub fn as_diagonal(&self) -> (r: Diag<R>) requires self@.c == 1 ensures r@.len() == self@.r, forall|i: int| 0 <= i < self@.r ==> (#[trigger] r@[i])@ == (self@.e)(i, 0) { unimplemented!() } }
#[verifier::external_body] pub fn vx_hcat(a: &Matrix<R>, b: &Matrix<R>) -> (r: Matrix<R>) requires a@.r == b@.r
  ensures r@.r == a@.r, r@.c == a@.c + b@.c, r@.e == (|i: int, j: int| if j < a@.c { (a@.e)(i, j) } else { (b@.e)(i, j - a@.c) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<R>, x: Vec<R>) ensures final(v)@ == old(v)@ + x@ { unimplemented!() }
// | and & on bools, and entry by entry on columns of bools
pub trait Bits: Sized { spec fn is_or(a: Self, b: Self, r: Self) -> bool; spec fn is_and(a: Self, b: Self, r: Self) -> bool; }
impl Bits for bool { open spec fn is_or(a: bool, b: bool, r: bool) -> bool { r == (a || b) } open spec fn is_and(a: bool, b: bool, r: bool) -> bool { r == (a && b) } }
#[verifier::external_body] pub fn vx_or<B: Bits>(a: B, b: B) -> (r: B) ensures B::is_or(a, b, r) { unimplemented!() }
#[verifier::external_body] pub fn vx_and<B: Bits>(a: B, b: B) -> (r: B) ensures B::is_and(a, b, r) { unimplemented!() }
pub enum Side { Lower, Upper }
pub struct Par { pub x: usize }
impl Par { #[verifier::external_body] pub fn rayon(n: usize) -> Par { unimplemented!() } }
// decompositions of a square matrix, read through what they solve
#[verifier::external_body] pub struct Solver { x: usize }
impl View for Solver { type V = Mx; uninterp spec fn view(&self) -> Mx; }
// q is a left inverse of g
pub open spec fn linv(q: F2, g: F2, p: int) -> bool { forall|i: int, j: int| 0 <= i < p && 0 <= j < p ==> #[trigger] mm(q, g, p)(i, j) == idm(i, j) }
pub open spec fn invertible(g: F2, p: int) -> bool { exists|q: F2| linv(q, g, p) }
impl Solver {
  #[verifier::external_body] pub fn inverse(&self) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.r, invertible(self@.e, self@.r) ==> linv(r@.e, self@.e, self@.r) && linv(self@.e, r@.e, self@.r) { unimplemented!() }
  #[verifier::external_body] pub fn solve(&self, b: Matrix<R>) -> (r: Matrix<R>) requires b@.r == self@.r
    ensures r@.r == self@.r, r@.c == b@.c, invertible(self@.e, self@.r) ==> forall|i: int, j: int| 0 <= i < self@.r && 0 <= j < b@.c ==> #[trigger] mm(self@.e, r@.e, self@.r)(i, j) == (b@.e)(i, j) { unimplemented!() }
}
// singular value decomposition of a square matrix
pub uninterp spec fn svok(m: Mx) -> bool;
pub uninterp spec fn svu(m: Mx) -> F2;
pub uninterp spec fn svv(m: Mx) -> F2;
pub uninterp spec fn svs(m: Mx) -> F1;
impl Solver {
  #[verifier::external_body] pub fn U(&self) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.r, r@.e == svu(self@) { unimplemented!() }
  #[verifier::external_body] pub fn V(&self) -> (r: Matrix<R>) ensures r@.r == self@.r, r@.c == self@.r, r@.e == svv(self@) { unimplemented!() }
  #[verifier::external_body] pub fn S(&self) -> (r: Diag<R>) ensures r@.len() == self@.r, forall|i: int| 0 <= i < self@.r ==> (#[trigger] r@[i])@ == svs(self@)(i) && svs(self@)(i) >= 0real { unimplemented!() }
}
impl Diag<R> { #[verifier::external_body] pub fn column_vector(&self) -> (r: Vec<R>) ensures r@ == self@ { unimplemented!() } }
impl R { #[verifier::external_body] pub fn from(n: usize) -> (r: Option<R>) ensures r is Some, r->0@ == n as int as real { unimplemented!() } }

pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
// ---- sums ----
pub proof fn sum_ext(f: F1, g: F1, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures sum(f, n) == sum(g, n) decreases n { if n > 0 { sum_ext(f, g, n - 1); } }
pub proof fn sum_add(f: F1, g: F1, n: int) ensures sum(|i: int| f(i) + g(i), n) == sum(f, n) + sum(g, n) decreases n { if n > 0 { sum_add(f, g, n - 1); } }
pub proof fn sum_scale(c: real, f: F1, n: int) ensures sum(|i: int| c * f(i), n) == c * sum(f, n) decreases n
{ if n > 0 { sum_scale(c, f, n - 1); assert(c * sum(f, n - 1) + c * f(n - 1) == c * (sum(f, n - 1) + f(n - 1))) by(nonlinear_arith); } else { assert(c * 0real == 0real) by(nonlinear_arith); } }
pub proof fn sum_zero(f: F1, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real ensures sum(f, n) == 0real decreases n { if n > 0 { sum_zero(f, n - 1); } }
pub proof fn sum_swap(f: F2, n: int, m: int) ensures sum(|i: int| sum(|j: int| f(i, j), m), n) == sum(|j: int| sum(|i: int| f(i, j), n), m) decreases n
{
  let r = |k: int| (|j: int| sum(|i: int| f(i, j), k));
  if n > 0 {
    sum_swap(f, n - 1, m);
    let a = |j: int| sum(|i: int| f(i, j), n - 1);
    let b = |j: int| f(n - 1, j);
    sum_add(a, b, m);
    sum_ext(|j: int| a(j) + b(j), |j: int| sum(|i: int| f(i, j), n), m);
    sum_ext(b, |j: int| f(n - 1, j), m);
    let l = |i: int| sum(|j: int| f(i, j), m);
    assert(l(n - 1) == sum(|j: int| f(n - 1, j), m));
  } else { sum_zero(|j: int| sum(|i: int| f(i, j), n), m); }
}
// the only non-zero term of the sum is the one at k
pub proof fn sum_one(f: F1, k: int, n: int) requires 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == 0real ensures sum(f, n) == f(k) decreases n
{ if k == n - 1 { sum_zero(f, n - 1); } else { sum_one(f, k, n - 1); } }
pub open spec fn dot(a: F1, b: F1, n: int) -> real { sum(|t: int| a(t) * b(t), n) }
pub open spec fn mv(a: F2, v: F1, n: int) -> F1 { |i: int| sum(|t: int| a(i, t) * v(t), n) }
// (v A) as a row
pub open spec fn vm(v: F1, a: F2, n: int) -> F1 { |j: int| sum(|t: int| v(t) * a(t, j), n) }
pub proof fn mv_assoc(a: F2, b: F2, v: F1, n: int, m: int, i: int)
  ensures mv(a, mv(b, v, m), n)(i) == mv(mm(a, b, n), v, m)(i)
{
  let h = |s: int, t: int| a(i, s) * (b(s, t) * v(t));
  sum_swap(h, n, m);
  let bv = mv(b, v, m);
  let l = |s: int| a(i, s) * bv(s);
  let l2 = |s: int| sum(|t: int| h(s, t), m);
  assert forall|s: int| 0 <= s < n implies #[trigger] l(s) == l2(s) by {
    let g = |t: int| b(s, t) * v(t);
    sum_scale(a(i, s), g, m);
    sum_ext(|t: int| a(i, s) * g(t), |t: int| h(s, t), m);
  }
  sum_ext(l, l2, n);
  let ab = mm(a, b, n);
  let r = |t: int| ab(i, t) * v(t);
  let r2 = |t: int| sum(|s: int| h(s, t), n);
  assert forall|t: int| 0 <= t < m implies #[trigger] r(t) == r2(t) by {
    let g = |s: int| a(i, s) * b(s, t);
    let k = |s: int| v(t) * g(s);
    let k2 = |s: int| h(s, t);
    sum_scale(v(t), g, n);
    assert(sum(g, n) == ab(i, t));
    assert(v(t) * ab(i, t) == ab(i, t) * v(t)) by(nonlinear_arith);
    assert forall|s: int| 0 <= s < n implies #[trigger] k(s) == k2(s) by {
      let (x, y, z) = (a(i, s), b(s, t), v(t));
      assert(z * (x * y) == x * (y * z)) by(nonlinear_arith);
    }
    sum_ext(k, k2, n);
  }
  sum_ext(r, r2, m);
}
pub proof fn mv_ext(a: F2, b: F2, v: F1, w: F1, n: int, i: int) requires forall|t: int| 0 <= t < n ==> #[trigger] a(i, t) == b(i, t) && v(t) == w(t) ensures mv(a, v, n)(i) == mv(b, w, n)(i)
{ sum_ext(|t: int| a(i, t) * v(t), |t: int| b(i, t) * w(t), n); }
pub proof fn mv_id(v: F1, n: int, i: int) requires 0 <= i < n ensures mv(|i: int, j: int| idm(i, j), v, n)(i) == v(i)
{
  let g = |t: int| idm(i, t) * v(t);
  assert forall|t: int| 0 <= t < n && t != i implies #[trigger] g(t) == 0real by { assert(0real * v(t) == 0real) by(nonlinear_arith); }
  sum_one(g, i, n); assert(g(i) == v(i)) by { assert(1real * v(i) == v(i)) by(nonlinear_arith); }
  sum_ext(g, |t: int| (|i: int, j: int| idm(i, j))(i, t) * v(t), n);
}
}
pub mod faer {
  pub use super::*;
  verus!{
  pub enum Accum { Add, Replace }
  }
  pub mod linalg { pub mod matmul {
    use super::super::super::*;
    verus!{
    // dst + a * (lhs * rhs)
    #[verifier::external_body] pub fn matmul<A: AsM, B: AsM>(dst: &mut Matrix<R>, k: super::super::Accum, lhs: A, rhs: B, a: R, p: Par)
      requires k is Add, lhs.m().c == rhs.m().r, lhs.m().r == old(dst)@.r, rhs.m().c == old(dst)@.c
      ensures final(dst)@.r == old(dst)@.r, final(dst)@.c == old(dst)@.c, final(dst)@.e == (|i: int, j: int| (old(dst)@.e)(i, j) + a@ * mm(lhs.m().e, rhs.m().e, lhs.m().c)(i, j)) { unimplemented!() }
    }
  } }
}
