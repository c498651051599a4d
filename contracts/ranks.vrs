//@include prelude_real.rs
//@default types=T:R,f64:R,OrderedFloat:R strip=R
verus!{
pub open spec fn sorted(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i])@ <= (#[trigger] s[j])@ }
// earlier entries equal to v
pub open spec fn ceq(s: Seq<R>, v: real, n: int) -> nat decreases n { if n <= 0 { 0nat } else { ceq(s, v, n - 1) + if s[n - 1]@ == v { 1nat } else { 0nat } } }
// sum over groups of ties of t^3 - t: a group grows from c to c + 1 members by 3 c (c + 1)
pub open spec fn ties(s: Seq<R>, n: int) -> real decreases n { if n <= 0 { 0real } else { let c = ceq(s, s[n - 1]@, n - 1) as int as real; ties(s, n - 1) + 3real * c * (c + 1real) } }
proof fn ceq_run(s: Seq<R>, v: real, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ != v ensures ceq(s, v, n) == 0 decreases n { if n > 0 { ceq_run(s, v, n - 1); } }
proof fn ceq_le(s: Seq<R>, v: real, n: int) requires 0 <= n ensures ceq(s, v, n) <= n decreases n { if n > 0 { ceq_le(s, v, n - 1); } }
proof fn ties_le(s: Seq<R>, n: int) requires 0 <= n ensures 0real <= ties(s, n) <= (n as real) * (n as real) * (n as real) - (n as real) decreases n
{ if n > 0 { ties_le(s, n - 1); ceq_le(s, s[n - 1]@, n - 1); let c = ceq(s, s[n - 1]@, n - 1) as int as real; let m = (n - 1) as real; assert(n as real == m + 1real);
    assert(3real * c * (c + 1real) <= 3real * m * (m + 1real)) by(nonlinear_arith) requires 0real <= c <= m;
    assert(3real * c * (c + 1real) >= 0real) by(nonlinear_arith) requires 0real <= c;
    assert((m + 1real) * (m + 1real) * (m + 1real) - (m + 1real) == m * m * m - m + 3real * m * (m + 1real)) by(nonlinear_arith); } }
//@fn file=stats/mann_whitney_u.rs path=mann_whitney_tie_sum ret=r
//@sig fn mann_whitney_tie_sum(ranks: &[R]) -> (r: R)
//@spec
requires sorted(ranks@)
ensures r@ == ties(ranks@, ranks.len() as int)
//@loop 0
invariant __i0 <= __n0, __n0 == ranks.len(), sorted(ranks@), __i0 == 0 ==> rank_cnt@ == 0real, __i0 > 0 ==> rank_number@ == ranks@[__i0 - 1]@ && rank_cnt@ == ceq(ranks@, rank_number@, __i0 as int) as int as real,
  accumulant@ + (rank_cnt@ * (rank_cnt@ + 1real) * (rank_cnt@ - 1real)) == ties(ranks@, __i0 as int),
decreases __n0 - __i0
//@at loop0.start
let ghost (a0, c0) = (accumulant@, rank_cnt@);
proof { if __i0 > 0 && ranks@[__i0 as int]@ != rank_number@ { ceq_run(ranks@, ranks@[__i0 as int]@, __i0 as int); } }
//@at loop0.end
proof { let c = c0; assert((c + 1real) * (c + 2real) * c == c * (c + 1real) * (c - 1real) + 3real * c * (c + 1real)) by(nonlinear_arith); let z = c0 + 1real;
  assert(z * (z + 1real) * (z - 1real) == (c + 1real) * (c + 2real) * c) by(nonlinear_arith) requires z == c + 1real;
  assert(1real * (1real + 1real) * (1real - 1real) == 0real); assert(0real * (0real + 1real) * (0real - 1real) == 0real); assert(ceq(ranks@, v@, __p0 as int) as int as real >= 0real);
  assert(3real * 0real * (0real + 1real) == 0real); 
  if __p0 == 0 { assert(rank_cnt@ == 1real); assert(a0 == 0real); assert(ceq(ranks@, v@, 0) == 0); assert(ties(ranks@, 0) == 0real); } }
//@end
// survival function of the normal distribution (a number in [0, 1] for a positive deviation)
pub uninterp spec fn nsf(x: real, m: real, s: real) -> real;
#[verifier::external_body] fn sf_unchecked(x: R, m: R, s: R) -> (r: R) requires s@ != 0real ensures r@ == nsf(x@, m@, s@) { unimplemented!() }
//@enum file=stats/mod.rs path=Alternative
//@fn file=stats/mann_whitney_u.rs path=pl_mann_whitney_u name=mwu calls=normal::sf_unchecked=>sf_unchecked
//@sig fn mwu(u1: R, u2: R, mean: R, sorted_ranks: &[R], alt: Alternative)
//@from let n = sorted_ranks
//@through let p =
//@drop_stmts let alt =
//@spec
requires sorted_ranks.len() >= 2, sorted(sorted_ranks@), mean@ >= 0real
//@at let.tie_term_sum.0
proof { let k = n@; ties_le(sorted_ranks@, sorted_ranks.len() as int); let t = tie_term_sum@; let d = k * (k - 1real); let q = t / d;
  assert(d > 0real) by(nonlinear_arith) requires k >= 2real, d == k * (k - 1real);
  assert(q * d == t) by(nonlinear_arith) requires q == t / d, d > 0real;
  assert((k + 1real) * d == k * k * k - k) by(nonlinear_arith) requires d == k * (k - 1real);
  assert(q <= k + 1real) by(nonlinear_arith) requires q * d <= (k + 1real) * d, d > 0real;
  assert((mean@ / 6real) * ((k + 1real) - q) >= 0real) by(nonlinear_arith) requires mean@ >= 0real, q <= k + 1real; }
//@at let.p.0
proof { let k = sorted_ranks.len() as int as real; let sd = rsqrt((mean@ / 6real) * ((k + 1real) - ties(sorted_ranks@, sorted_ranks.len() as int) / (k * (k - 1real))));
  let big = rmax(u1@, u2@);
  assert(p@ == (if sd == 0real { 1real } else { match alt {
    Alternative::TwoSided => rmin(rmax(2real * nsf(big, mean@ + 0.5real, sd), 0real), 1real),
    Alternative::Less => rmin(rmax(1real * nsf(u2@, mean@ + 0.5real, sd), 0real), 1real),
    Alternative::Greater => rmin(rmax(1real * nsf(u1@, mean@ + 0.5real, sd), 0real), 1real) } })); }
//@end

// ---- Kolmogorov-Smirnov ----
pub open spec fn cle(s: Seq<R>, t: real, n: int) -> nat decreases n { if n <= 0 { 0nat } else { cle(s, t, n - 1) + if s[n - 1]@ <= t { 1nat } else { 0nat } } }
pub open spec fn cut(s: Seq<R>, t: real, k: int) -> bool { 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i])@ <= t) && (forall|i: int| k <= i < s.len() ==> (#[trigger] s[i])@ > t) }
proof fn cut_cle(s: Seq<R>, t: real, k: int, n: int) requires cut(s, t, k), 0 <= n <= s.len() ensures cle(s, t, n) == if n <= k { n } else { k } decreases n { if n > 0 { cut_cle(s, t, k, n - 1); } }
proof fn cle_cut(s: Seq<R>, t: real, n: int) requires sorted(s), 0 <= n <= s.len() ensures 0 <= cle(s, t, n) <= n, cut(s.take(n), t, cle(s, t, n) as int) decreases n
{ if n > 0 { cle_cut(s, t, n - 1); let k = cle(s, t, n - 1) as int; assert forall|i: int| 0 <= i < n - 1 implies s.take(n)[i] == s.take(n - 1)[i] by {}
    if s[n - 1]@ <= t { if k < n - 1 { assert(s.take(n - 1)[k]@ > t); assert(s[k]@ <= s[n - 1]@); } } } }
pub open spec fn ecdf(s: Seq<R>, t: real) -> real { cle(s, t, s.len() as int) as int as real / s.len() as int as real }
pub open spec fn dif(a: Seq<R>, b: Seq<R>, t: real) -> real { rabs(ecdf(a, t) - ecdf(b, t)) }
pub open spec fn pt(a: Seq<R>, b: Seq<R>, i: int) -> real { if i < a.len() { a[i]@ } else { b[i - a.len()]@ } }
//@fn file=stats/ks.rs path=binary_search_right ret=r
//@spec
requires sorted(arr@)
ensures r == cle(arr@, t@, arr.len() as int), r <= arr.len()
//@loop 0
invariant left <= right <= arr.len(), sorted(arr@), forall|i: int| 0 <= i < left ==> (#[trigger] arr@[i])@ <= t@, forall|i: int| right <= i < arr@.len() ==> (#[trigger] arr@[i])@ > t@,
decreases right - left
//@at loop0.start
proof { let d = (right - left) as usize; assert(d >> 1 == d / 2) by(bit_vector); }
//@at loop0.post
proof { cut_cle(arr@, t@, left as int, arr.len() as int); }
//@end
// the difference at any t is the difference at one of the points, or 0
proof fn at_point(a: Seq<R>, b: Seq<R>, t: real) requires sorted(a), sorted(b), a.len() > 0, b.len() > 0
  ensures dif(a, b, t) == 0real || exists|i: int| 0 <= i < a.len() + b.len() && dif(a, b, t) == dif(a, b, #[trigger] pt(a, b, i))
{ cle_cut(a, t, a.len() as int); cle_cut(b, t, b.len() as int); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b);
  let (c, d) = (cle(a, t, a.len() as int) as int, cle(b, t, b.len() as int) as int);
  if c == 0 && d == 0 { let (n, m) = (a.len() as int as real, b.len() as int as real); assert(0real / n == 0real) by(nonlinear_arith) requires n > 0real; assert(0real / m == 0real) by(nonlinear_arith) requires m > 0real; }
  else { let i = if d == 0 || (c > 0 && a[c - 1]@ >= b[d - 1]@) { c - 1 } else { a.len() + d - 1 }; let x = pt(a, b, i);
    assert(cut(a, x, c)) by { if c > 0 { assert forall|j: int| 0 <= j < c implies (#[trigger] a[j])@ <= x by { assert(a[j]@ <= a[c - 1]@); } } }
    assert(cut(b, x, d)) by { if d > 0 { assert forall|j: int| 0 <= j < d implies (#[trigger] b[j])@ <= x by { assert(b[j]@ <= b[d - 1]@); } } }
    cut_cle(a, x, c, a.len() as int); cut_cle(b, x, d, b.len() as int); assert(dif(a, b, t) == dif(a, b, pt(a, b, i))); } }
//@fn file=stats/ks.rs path=ks_2samp ret=r
//@drop_stmts transmute
//@spec
requires sorted(v1@), sorted(v2@), v1.len() >= 1, v2.len() >= 1, alpha@ > 0real, v1.len() + v2.len() <= usize::MAX
ensures forall|t: real| #[trigger] dif(v1@, v2@, t) <= r.0@, exists|i: int| 0 <= i < v1.len() + v2.len() && r.0@ == dif(v1@, v2@, #[trigger] pt(v1@, v2@, i)),
  r.1@ == rsqrt(rabs(-0.5real * rln(alpha@ / 2real)) * (v1.len() as int as real + v2.len() as int as real) / (v1.len() as int as real * (v2.len() as int as real)))
//@loop 0
invariant __i0 <= __n0, __n1 == v1.len(), __n0 == v1.len() + v2.len(), sorted(v1@), sorted(v2@), v1.len() >= 1, v2.len() >= 1, n1@ == v1.len() as int as real, n2@ == v2.len() as int as real,
  __i0 == 0 ==> __acc0@ == -MAXV(), forall|i: int| 0 <= i < __i0 ==> dif(v1@, v2@, #[trigger] pt(v1@, v2@, i)) <= __acc0@, __i0 > 0 ==> exists|i: int| 0 <= i < __i0 && __acc0@ == dif(v1@, v2@, #[trigger] pt(v1@, v2@, i)),
decreases __n0 - __i0
//@at loop0.start
let ghost ac = __acc0@; let ghost w = if __i0 > 0 { choose|i: int| 0 <= i < __i0 && __acc0@ == dif(v1@, v2@, #[trigger] pt(v1@, v2@, i)) } else { 0int };
//@at loop0.end
proof { maxv_pos(); assert(__x0_0.0@ - __x0_0.1@ == ecdf(v1@, pt(v1@, v2@, __p0 as int)) - ecdf(v2@, pt(v1@, v2@, __p0 as int)));
  let dd = dif(v1@, v2@, pt(v1@, v2@, __p0 as int)); assert(dd >= 0real); assert(__acc0@ == rmax(ac, dd));
  if __acc0@ != dd { assert(__acc0@ == dif(v1@, v2@, pt(v1@, v2@, w))); } }
//@at let.stats.0
proof { assert forall|t: real| #[trigger] dif(v1@, v2@, t) <= stats@ by { at_point(v1@, v2@, t); assert(0real <= dif(v1@, v2@, pt(v1@, v2@, 0))); } }
//@at let.c_alpha.0
proof { let (c, n, m) = (c_alpha@, n1@, n2@); assert(n * m > 0real) by(nonlinear_arith) requires n > 0real, m > 0real;
  let (p, q) = (c * (n + m), n * m); assert(p >= 0real) by(nonlinear_arith) requires p == c * (n + m), c >= 0real, n > 0real, m > 0real; assert(p / q >= 0real) by(nonlinear_arith) requires p >= 0real, q > 0real; }
//@end
}
fn main(){}
