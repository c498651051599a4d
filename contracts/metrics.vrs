//@include prelude_real.rs
//@include cfavml.rs
//@default types=T:R,f64:R
verus!{
pub open spec fn traps(y: Seq<R>, x: Seq<R>, n: int) -> real decreases n {
  if n <= 0 { 0real } else { traps(y, x, n - 1) + (y[n - 1]@ + y[n]@) * (x[n]@ - x[n - 1]@) / 2real } }
pub mod trapz { use super::*; verus!{
// proved in trapz.vrs from the same source
#[verifier::external_body] pub fn trapz(y: &[R], x: &[R]) -> (r: R) requires x@.len() == y@.len(), y@.len() >= 1 ensures r@ == traps(y@, x@, y@.len() - 1) { unimplemented!() }
}}
// the curve falls from (fpr_0, tpr_0) to (fpr_{n-1}, tpr_{n-1}) and ends at (0, 0)
pub open spec fn at(s: Seq<R>, i: int) -> real { if 0 <= i < s.len() { s[i]@ } else { 0real } }
pub open spec fn area(t: Seq<R>, f: Seq<R>, n: int) -> real decreases n {
  if n <= 0 { 0real } else { area(t, f, n - 1) + (at(t, n - 1) + at(t, n)) * (at(f, n - 1) - at(f, n)) / 2real } }
proof fn area_traps(t: Seq<R>, f: Seq<R>, n: int) requires t.len() == f.len(), 0 <= n < t.len() ensures area(t, f, n) == -traps(t, f, n) decreases n
{ if n > 0 { area_traps(t, f, n - 1); let (a, p, q) = (t[n - 1]@ + t[n]@, f[n - 1]@, f[n]@); assert(a * (p - q) / 2real == -(a * (q - p) / 2real)) by(nonlinear_arith); } }
// With tp_i and fp_i the suffix sums of the positives p_j and negatives q_j at the i-th threshold, the area counts the pairs (a positive,
// a negative) in which the positive has the larger score, and ties by half
pub open spec fn suf(p: Seq<nat>, i: int) -> nat decreases p.len() - i { if i >= p.len() || i < 0 { 0 } else { p[i] + suf(p, i + 1) } }
pub open spec fn pairs2(p: Seq<nat>, q: Seq<nat>, n: int) -> int decreases n { if n <= 0 { 0 } else { pairs2(p, q, n - 1) + q[n - 1] * (2 * suf(p, n) + p[n - 1]) } }
pub open spec fn is_rate(t: Seq<R>, p: Seq<nat>) -> bool { t.len() == p.len() && suf(p, 0) > 0 && forall|i: int| 0 <= i < p.len() ==> (#[trigger] t[i])@ == suf(p, i) as int as real / suf(p, 0) as int as real }
pub proof fn auc_pairs(t: Seq<R>, f: Seq<R>, p: Seq<nat>, q: Seq<nat>, n: int)
  requires is_rate(t, p), is_rate(f, q), p.len() == q.len(), 0 <= n <= p.len()
  ensures area(t, f, n) * (suf(p, 0) as int as real) * (suf(q, 0) as int as real) * 2real == pairs2(p, q, n) as real decreases n
{ let (P, Q) = (suf(p, 0) as int as real, suf(q, 0) as int as real);
  if n > 0 { auc_pairs(t, f, p, q, n - 1);
    let (a0, a1, b0, b1) = (suf(p, n - 1) as int as real, suf(p, n) as int as real, suf(q, n - 1) as int as real, suf(q, n) as int as real);
    assert(a0 == a1 + p[n - 1] as int as real); assert(b0 == b1 + q[n - 1] as int as real);
    assert(at(t, n - 1) == a0 / P); assert(at(f, n - 1) == b0 / Q);
    assert(at(t, n) == a1 / P) by { if n == p.len() { assert(a1 == 0real); assert(0real / P == 0real) by(nonlinear_arith) requires P > 0real; } }
    assert(at(f, n) == b1 / Q) by { if n == p.len() { assert(b1 == 0real); assert(0real / Q == 0real) by(nonlinear_arith) requires Q > 0real; } }
    let (r, s) = (area(t, f, n - 1), (a0 / P + a1 / P) * (b0 / Q - b1 / Q) / 2real);
    let (u, v) = (a0 + a1, b0 - b1);
    assert(a0 / P + a1 / P == u / P) by(nonlinear_arith) requires u == a0 + a1, P > 0real;
    assert(b0 / Q - b1 / Q == v / Q) by(nonlinear_arith) requires v == b0 - b1, Q > 0real;
    let (g, h) = (u / P, v / Q); assert(g * P == u) by(nonlinear_arith) requires g == u / P, P > 0real; assert(h * Q == v) by(nonlinear_arith) requires h == v / Q, Q > 0real;
    assert(g * h / 2real * P * Q * 2real == (g * P) * (h * Q)) by(nonlinear_arith);
    assert((r + s) * P * Q * 2real == r * P * Q * 2real + s * P * Q * 2real) by(nonlinear_arith);
    let qq = q[n - 1] as int; let pp = 2 * suf(p, n) as int + p[n - 1] as int;
    assert(u * v == (qq * pp) as real) by { assert(u == pp as real && v == qq as real); assert((pp as real) * (qq as real) == (qq * pp) as real) by(nonlinear_arith); } }
  else { assert(area(t, f, 0) == 0real); assert(0real * P * Q * 2real == 0real) by(nonlinear_arith); } }

//@fn file=num_ext/tp_fp.rs path=area_under_roc ret=r calls=super::trapz::trapz=>trapz::trapz wrap_tail=1
//@spec
requires tpr.len() == fpr.len(), tpr.len() >= 1
ensures r@ == area(tpr@, fpr@, tpr.len() as int)
//@at fn.end
proof { area_traps(tpr@, fpr@, n - 1); let (a, b) = (tpr@[n - 1]@, fpr@[n - 1]@); assert(0.5real * a * b == (a + 0real) * (b - 0real) / 2real) by(nonlinear_arith);
  assert(at(tpr@, n as int) == 0real && at(fpr@, n as int) == 0real); }
//@end

// counts of the four outcomes
pub open spec fn cnt(s: Seq<u32>, v: int, n: int) -> nat decreases n { if n <= 0 { 0nat } else { cnt(s, v, n - 1) + if s[n - 1] % 4 == v { 1nat } else { 0nat } } }
proof fn cnt_le(s: Seq<u32>, v: int, n: int) requires 0 <= n <= s.len() ensures cnt(s, v, n) <= n decreases n { if n > 0 { cnt_le(s, v, n - 1); } }
//@fn file=num_ext/tp_fp.rs path=binary_confusion_matrix ret=r
//@sig fn binary_confusion_matrix(combined_series: &[u32]) -> (r: [u32; 4])
//@spec
requires combined_series.len() <= u32::MAX
ensures forall|v: int| 0 <= v < 4 ==> (#[trigger] r@[v]) == cnt(combined_series@, v, combined_series.len() as int)
//@loop 0
invariant __i0 <= __n0, __n0 == combined_series.len(), __n0 <= u32::MAX, output@.len() == 4, forall|v: int| 0 <= v < 4 ==> (#[trigger] output@[v]) == cnt(combined_series@, v, __i0 as int),
decreases __n0 - __i0
//@at let.j.0
proof { cnt_le(combined_series@, j as int, __p0 as int); }
//@end

// phi coefficient of a table without an empty row or column
//@fn file=num_ext/tp_fp.rs path=pl_mcc name=mcc
//@sig fn mcc(cm: [u32; 4])
//@from let n00
//@through let phi
//@spec
requires cm@[0] + cm@[1] + cm@[2] + cm@[3] <= u32::MAX, cm@[0] + cm@[1] > 0, cm@[2] + cm@[3] > 0, cm@[0] + cm@[2] > 0, cm@[1] + cm@[3] > 0
//@at let.n_0.0
proof { let (a, b, c, d) = (n1_@, n_1@, n0_@, n_0@); assert(a * b * c * d > 0real) by(nonlinear_arith) requires a > 0real, b > 0real, c > 0real, d > 0real; rsqrt_def(a * b * c * d);
  let s = rsqrt(a * b * c * d); assert(s != 0real) by(nonlinear_arith) requires s * s > 0real; }
//@at let.phi.0
proof { let (tn, fp, fnn, tp) = (cm@[0] as int as real, cm@[1] as int as real, cm@[2] as int as real, cm@[3] as int as real);
  assert(phi@ == (tp * tn - fnn * fp) / rsqrt((tp + fnn) * (tp + fp) * (fp + tn) * (fnn + tn))); }
//@end

// average precision: the drops of the recall, weighted by the precision before the drop
pub open spec fn avgp(y: Seq<R>, p: Seq<R>, n: int) -> real decreases n { if n <= 0 { 0real } else { avgp(y, p, n - 1) + (at(y, n - 1) - at(y, n)) * p[n - 1]@ } }
//@fn file=num_ext/tp_fp.rs path=pl_combo_b name=average_precision ref_iter=precision
//@sig fn average_precision(y: &[R], precision: &[R])
//@from let ap : f64
//@through let ap : f64
//@spec
requires y.len() == precision.len(), y.len() >= 1, y.len() < usize::MAX
//@at fn.start
let ghost ys = y@; let ghost ps = precision@;
//@loop 0
invariant __i0 <= __n0, y@ == ys, precision@ == ps, __n0 == ys.len(), ys.len() == ps.len(), __acc0@ == -avgp(ys, ps, __i0 as int), __n2 == ys.len() - 1, (*__o1)@ == 0real,
decreases __n0 - __i0
//@at loop0.end
proof { let (a, b, c) = (at(ys, __p0 as int), at(ys, __p0 + 1), ps[__p0 as int]@); assert((b - a) * c == -((a - b) * c)) by(nonlinear_arith); }
//@at let.ap.0
proof { assert(ap@ == avgp(ys, ps, ys.len() as int)) by { assert(-1real * (-avgp(ys, ps, ys.len() as int)) == avgp(ys, ps, ys.len() as int)) by(nonlinear_arith); } }
//@end
// precision, recall and F of the first threshold that is not below the given one
//@fn file=num_ext/tp_fp.rs path=pl_combo_b name=prf
//@sig fn prf(y: &[R], precision: &[R], index: usize)
//@from let recall = y
//@through let f : f64
//@spec
requires y.len() == precision.len(), index < y.len(), y@[index as int]@ + precision@[index as int]@ != 0real
//@at fn.start
let ghost ps = precision@;
//@at let.f.0
proof { let (p, r) = (ps[index as int]@, y@[index as int]@); assert(recall@ == r && precision@ == p); assert(f@ == 2real * (p * r) / (p + r)); }
//@end
}
fn main(){}
