//@include prelude_real.rs
//@include slices.rs
//@include cfavml.rs
//@default types=T:R,f64:R
verus!{
#[verifier::external_body] pub struct PolarsError { x: u8 }
pub type PolarsResult<T> = Result<T, PolarsError>;
pub open spec fn pad(x: Seq<R>, i: int) -> real { if 0 <= i < x.len() { x[i]@ } else { 0real } }
// the kernel laid over the input at i0 (the caller passes the reversed kernel), and the convolution sum of the definition
pub open spec fn cor(k: Seq<R>, x: Seq<R>, i0: int, n: int) -> real decreases n { if n <= 0 { 0real } else { cor(k, x, i0, n - 1) + k[n - 1]@ * pad(x, i0 + n - 1) } }
pub open spec fn cov(k: Seq<R>, x: Seq<R>, i0: int, n: int) -> real decreases n { if n <= 0 { 0real } else { cov(k, x, i0, n - 1) + k[n - 1]@ * pad(x, i0 - (n - 1)) } }
pub open spec fn off(m: ConvMode, k: int) -> int { match m { ConvMode::FULL => 0, ConvMode::SAME => (k - 1) / 2, ConvMode::LEFT => 0, ConvMode::RIGHT => k - 1, ConvMode::VALID => k - 1 } }
pub open spec fn olen(m: ConvMode, n: int, k: int) -> int { match m { ConvMode::FULL => n + k - 1, ConvMode::VALID => n - k + 1, _ => n } }
pub open spec fn rank(m: ConvMode) -> int { match m { ConvMode::FULL => 1, ConvMode::VALID => 0, _ => 2 } }
pub open spec fn rev(k: Seq<R>) -> Seq<R> { Seq::new(k.len(), |i: int| k[k.len() - 1 - i]) }
proof fn dot_cor(k: Seq<R>, s: Seq<R>, x: Seq<R>, i: int, n: int)
  requires 0 <= n <= k.len(), s.len() == k.len(), 0 <= i, i + k.len() <= x.len(), s == x.subrange(i, i + k.len()) ensures dotp(k, s, n) == cor(k, x, i, n) decreases n
{ if n > 0 { dot_cor(k, s, x, i, n - 1); assert(s[n - 1] == x[i + n - 1]); } }
proof fn cor_pad(k: Seq<R>, x: Seq<R>, p: Seq<R>, t: int, i: int, n: int)
  requires t >= 0, p.len() == x.len() + 2 * t, forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j])@ == pad(x, j - t), 0 <= n
  ensures cor(k, p, i, n) == cor(k, x, i - t, n) decreases n
{ if n > 0 { cor_pad(k, x, p, t, i, n - 1); let j = i + n - 1; if 0 <= j < p.len() { assert(p[j]@ == pad(x, j - t)); } } }
proof fn cov_pad(k: Seq<R>, x: Seq<R>, p: Seq<R>, t: int, i: int, n: int)
  requires t >= 0, p.len() == x.len() + 2 * t, forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j])@ == pad(x, j - t), 0 <= n
  ensures cov(k, p, i, n) == cov(k, x, i - t, n) decreases n
{ if n > 0 { cov_pad(k, x, p, t, i, n - 1); let j = i - (n - 1); if 0 <= j < p.len() { assert(p[j]@ == pad(x, j - t)); } } }
// laying the reversed kernel over the input at i - (k - 1) gives the convolution sum at i
pub proof fn cor_is_cov(k: Seq<R>, x: Seq<R>, i: int)
  ensures cor(rev(k), x, i - (k.len() - 1), k.len() as int) == cov(k, x, i, k.len() as int)
{ corv(k, x, i, k.len() as int); cov_from_all(k, x, i, k.len() as int); }
spec fn cov_from(k: Seq<R>, x: Seq<R>, i: int, a: int) -> real decreases k.len() - a { if a >= k.len() || a < 0 { 0real } else { k[a]@ * pad(x, i - a) + cov_from(k, x, i, a + 1) } }
proof fn corv(k: Seq<R>, x: Seq<R>, i: int, n: int) requires 0 <= n <= k.len() ensures cor(rev(k), x, i - (k.len() - 1), n) == cov_from(k, x, i, k.len() - n) decreases n
{ if n > 0 { corv(k, x, i, n - 1); } }
proof fn cov_from_all(k: Seq<R>, x: Seq<R>, i: int, n: int) requires 0 <= n <= k.len() ensures cov(k, x, i, n) + cov_from(k, x, i, n) == cov_from(k, x, i, 0) decreases n
{ if n > 0 { cov_from_all(k, x, i, n - 1); } else { assert(cov(k, x, i, 0) == 0real); } }
pub open spec fn is_cor(m: ConvMode, x: Seq<R>, k: Seq<R>, r: Seq<R>) -> bool { r.len() == olen(m, x.len() as int, k.len() as int)
  && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == cor(k, x, i + off(m, k.len() as int) - (k.len() - 1), k.len() as int) }
pub open spec fn is_cov(m: ConvMode, x: Seq<R>, k: Seq<R>, r: Seq<R>) -> bool { r.len() == olen(m, x.len() as int, k.len() as int)
  && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == cov(k, x, i + off(m, k.len() as int), k.len() as int) }
// both methods give the same numbers when the direct one gets the reversed kernel
pub proof fn methods_agree(m: ConvMode, x: Seq<R>, k: Seq<R>, a: Seq<R>, b: Seq<R>) requires is_cor(m, x, rev(k), a), is_cov(m, x, k, b) ensures a =~= b
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { cor_is_cov(k, x, i + off(m, k.len() as int)); assert(a[i]@ == b[i]@); r_ext(a[i], b[i]); } }

//@enum file=num_ext/convolve.rs path=ConvMode
//@fn file=num_ext/convolve.rs path=convolve ret=r
//@letty __acc0 Vec<R>
//@letty __acc1 Vec<R>
//@letty __acc2 Vec<R>
//@letty __acc3 Vec<R>
//@spec
requires kernel.len() >= 1, input.len() >= 1, mode == ConvMode::VALID ==> input.len() >= kernel.len(), input.len() + 4 * kernel.len() <= usize::MAX
  , mode == ConvMode::FULL || rank(mode) == 2 ==> input.len() + 8 * kernel.len() <= usize::MAX
ensures r is Ok, is_cor(mode, input@, kernel@, r->Ok_0@)
decreases rank(mode)
//@at call.vx_copy_range.0
proof { assert forall|j: int| 0 <= j < padded_input@.len() implies (#[trigger] padded_input@[j])@ == pad(input@, j - t) by {}
  assert forall|i: int| true implies cor(kernel@, padded_input@, i, kernel@.len() as int) == #[trigger] cor(kernel@, input@, i - t, kernel@.len() as int) by { cor_pad(kernel@, input@, padded_input@, t as int, i, kernel@.len() as int); } 
  assert forall|r: Seq<R>| #[trigger] is_cor(ConvMode::VALID, padded_input@, kernel@, r) implies is_cor(ConvMode::FULL, input@, kernel@, r) by {
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@ == cor(kernel@, input@, i - t, kernel@.len() as int) by { cor_pad(kernel@, input@, padded_input@, t as int, i, kernel@.len() as int); } } }
//@loop 0
invariant __i0 <= __n0, __n0 == input.len(), out.len() >= __n0 + skip, __acc0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __acc0@[i] == out@[i + skip],
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, out.len() == __n1 + __k2, __acc1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> #[trigger] __acc1@[i] == out@[i + __k2],
decreases __n1 - __i1
//@loop 2
invariant __i2 <= __n2, kernel.len() >= 1, __k3 == kernel.len(), __n2 + __k3 == input.len() + 1, __acc2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] __acc2@[i])@ == cor(kernel@, input@, i, kernel@.len() as int),
decreases __n2 - __i2
//@at let.__x2_0.0
proof { dot_cor(kernel@, sl@, input@, __p2 as int, kernel@.len() as int); }
//@loop 3
invariant __i3 <= __n3, kernel.len() >= 1, __k4 == kernel.len(), __n3 + __k4 == input.len() + 1, __acc3@.len() == __i3, forall|i: int| 0 <= i < __i3 ==> (#[trigger] __acc3@[i])@ == cor(kernel@, input@, i, kernel@.len() as int),
decreases __n3 - __i3
//@at let.__x3_0.0
proof { dot_cor(kernel@, sl@, input@, __p3 as int, kernel@.len() as int); }
//@end

// trusted: two real FFTs, a product and the inverse give the circular convolution scaled by the length; from k - 1 on nothing wraps around
#[verifier::external_body] fn valid_fft_convolve(input: &[R], kernel: &[R]) -> (r: PolarsResult<Vec<R>>)
  requires 1 <= kernel@.len() <= input@.len()
  ensures r is Ok, r->Ok_0@.len() == input@.len(), forall|i: int| kernel@.len() - 1 <= i < input@.len() ==> (#[trigger] r->Ok_0@[i])@ == (input@.len() as int as real) * cov(kernel@, input@, i, kernel@.len() as int) { unimplemented!() }
//@fn file=num_ext/convolve.rs path=fft_convolve ret=r
//@letty __acc0 Vec<R>
//@letty __acc1 Vec<R>
//@letty __acc2 Vec<R>
//@spec
requires kernel.len() >= 1, input.len() >= 1, mode == ConvMode::VALID ==> input.len() >= kernel.len(), input.len() + 4 * kernel.len() <= usize::MAX
  , mode == ConvMode::FULL || rank(mode) == 2 ==> input.len() + 8 * kernel.len() <= usize::MAX
ensures r is Ok, is_cov(mode, input@, kernel@, r->Ok_0@)
decreases rank(mode)
//@at call.vx_copy_range.0
proof { assert forall|j: int| 0 <= j < padded_input@.len() implies (#[trigger] padded_input@[j])@ == pad(input@, j - t) by {}
  assert forall|r: Seq<R>| #[trigger] is_cov(ConvMode::VALID, padded_input@, kernel@, r) implies is_cov(ConvMode::FULL, input@, kernel@, r) by {
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@ == cov(kernel@, input@, i, kernel@.len() as int) by { cov_pad(kernel@, input@, padded_input@, t as int, i + t, kernel@.len() as int); } } }
//@loop 0
invariant __i0 <= __n0, __n0 == input.len(), out.len() >= __n0 + skip, __acc0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __acc0@[i] == out@[i + skip],
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, out.len() == __n1 + __k2, __acc1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> #[trigger] __acc1@[i] == out@[i + __k2],
decreases __n1 - __i1
//@loop 2
invariant __i2 <= __n2, kernel.len() >= 1, __k3 == kernel.len() - 1, __n2 + __k3 == out.len(), out@.len() == input.len(), n@ == input.len() as int as real, n@ > 0real, __acc2@.len() == __i2,
  forall|i: int| kernel@.len() - 1 <= i < input@.len() ==> (#[trigger] out@[i])@ == (input@.len() as int as real) * cov(kernel@, input@, i, kernel@.len() as int),
  forall|i: int| 0 <= i < __i2 ==> (#[trigger] __acc2@[i])@ == cov(kernel@, input@, i + kernel@.len() - 1, kernel@.len() as int),
decreases __n2 - __i2
//@at let.__x2_0.0
proof { let c = cov(kernel@, input@, __p2 + kernel@.len() - 1, kernel@.len() as int); let (a, l, z) = (x@, n@, __x2_0@);
  assert(z == c) by(nonlinear_arith) requires z == a / l, a == l * c, l > 0real; }
//@end
}
fn main(){}
