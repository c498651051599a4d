//@include prelude_real.rs
//@include cfavml.rs
//@default types=T:R,f64:R
verus!{
// the sum of the first n trapezoids under the points (x_i, y_i)
pub open spec fn traps(y: Seq<R>, x: Seq<R>, n: int) -> real decreases n {
  if n <= 0 { 0real } else { traps(y, x, n - 1) + (y[n - 1]@ + y[n]@) * (x[n]@ - x[n - 1]@) / 2real } }
pub open spec fn sums(y: Seq<R>, n: int) -> real decreases n { if n <= 0 { 0real } else { sums(y, n - 1) + y[n - 1]@ } }
// equally spaced points
pub open spec fn traps_dx(y: Seq<R>, dx: real, n: int) -> real decreases n {
  if n <= 0 { 0real } else { traps_dx(y, dx, n - 1) + (y[n - 1]@ + y[n]@) * dx / 2real } }
proof fn dot_traps(y: Seq<R>, x: Seq<R>, a: Seq<R>, b: Seq<R>, n: int)
  requires 0 <= n <= a.len(), a.len() == b.len(), a.len() == y.len() - 1, x.len() == y.len(),
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == y[i + 1]@ + y[i]@, forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i])@ == x[i + 1]@ - x[i]@
  ensures 0.5real * dotp(a, b, n) == traps(y, x, n) decreases n
{ if n > 0 { dot_traps(y, x, a, b, n - 1); assert(a[n - 1]@ == y[n]@ + y[n - 1]@); assert(b[n - 1]@ == x[n]@ - x[n - 1]@); let (p, q) = (a[n - 1]@, b[n - 1]@);
    let (u, v) = (y[n]@, y[n - 1]@); assert(p * q == (v + u) * q) by(nonlinear_arith) requires p == u + v; } }
proof fn sum_traps(y: Seq<R>, dx: real, n: int) requires 1 <= n < y.len()
  ensures traps_dx(y, dx, n) == dx * (sums(y.subrange(1, n), n - 1) + 0.5real * (y[0]@ + y[n]@)) decreases n
{ if n > 1 { sum_traps(y, dx, n - 1); sums_ext(y.subrange(1, n), y.subrange(1, n - 1), n - 2); assert(y.subrange(1, n)[n - 2] == y[n - 1]);
    let (s, a, b, c) = (sums(y.subrange(1, n - 1), n - 2), y[0]@, y[n - 1]@, y[n]@);
    assert(dx * (s + 0.5real * (a + b)) + (b + c) * dx / 2real == dx * (s + b + 0.5real * (a + c))) by(nonlinear_arith); }
  else { assert(traps_dx(y, dx, 0) == 0real); assert(sums(y.subrange(1, n), 0) == 0real); let (a, b) = (y[0]@, y[1]@); assert((a + b) * dx / 2real == dx * (0real + 0.5real * (a + b))) by(nonlinear_arith); } }
proof fn sums_ext(a: Seq<R>, b: Seq<R>, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures sums(a, n) == sums(b, n) decreases n
{ if n > 0 { sums_ext(a, b, n - 1); } }

//@fn file=num_ext/trapz.rs path=trapz ret=r wrap_tail=1
//@spec
requires x.len() == y.len(), y.len() >= 1
ensures r@ == traps(y@, x@, y.len() - 1)
//@at call.cfavml::sub_vector.0
proof { dot_traps(y@, x@, y_d@, x_d@, y.len() - 1); }
//@at fn.start
assert(traps(y@, x@, 0) == 0real);
//@end
//@fn file=num_ext/trapz.rs path=trapz_dx ret=r
//@spec
requires y.len() >= 2
ensures r@ == traps_dx(y@, dx@, y.len() - 1)
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == y@.subrange(1, y.len() - 1), __acc0@ == sums(__s1@, __i0 as int),
decreases __n0 - __i0
//@at let.ss.0
proof { sum_traps(y@, dx@, y.len() - 1); assert(y@.last() == y@[y.len() - 1]); }
//@end
}
fn main(){}
