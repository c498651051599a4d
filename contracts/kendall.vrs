//@include prelude_real.rs
//@default types=f64:R
verus!{
global size_of usize == 8;
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
// pairs of entries, counted by the position of the later one
pub open spec fn gtc(s: Seq<u32>, v: u32, n: int) -> nat decreases n { if n <= 0 { 0nat } else { gtc(s, v, n - 1) + if s[n - 1] > v { 1nat } else { 0nat } } }
pub open spec fn eqc(s: Seq<u32>, v: u32, n: int) -> nat decreases n { if n <= 0 { 0nat } else { eqc(s, v, n - 1) + if s[n - 1] == v { 1nat } else { 0nat } } }
pub open spec fn eqc2(s: Seq<u32>, t: Seq<u32>, v: u32, w: u32, n: int) -> nat decreases n { if n <= 0 { 0nat } else { eqc2(s, t, v, w, n - 1) + if s[n - 1] == v && t[n - 1] == w { 1nat } else { 0nat } } }
pub open spec fn inv(s: Seq<u32>, n: int) -> nat decreases n { if n <= 0 { 0nat } else { inv(s, n - 1) + gtc(s, s[n - 1], n - 1) } }
pub open spec fn eqp(s: Seq<u32>, n: int) -> nat decreases n { if n <= 0 { 0nat } else { eqp(s, n - 1) + eqc(s, s[n - 1], n - 1) } }
pub open spec fn eqp2(s: Seq<u32>, t: Seq<u32>, n: int) -> nat decreases n { if n <= 0 { 0nat } else { eqp2(s, t, n - 1) + eqc2(s, t, s[n - 1], t[n - 1], n - 1) } }
pub open spec fn sg(a: u32, b: u32) -> int { if a < b { -1 } else if a == b { 0 } else { 1 } }
// concordant minus discordant pairs
pub open spec fn concl(x: Seq<u32>, y: Seq<u32>, m: int, n: int) -> int decreases n { if n <= 0 { 0int } else { concl(x, y, m, n - 1) + sg(x[m], x[n - 1]) * sg(y[m], y[n - 1]) } }
pub open spec fn conc(x: Seq<u32>, y: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0int } else { conc(x, y, n - 1) + concl(x, y, n - 1, n - 1) } }
pub open spec fn lex(x: Seq<u32>, y: Seq<u32>) -> bool { x.len() == y.len() && forall|i: int, j: int| 0 <= i <= j < x.len() ==> (#[trigger] x[i] < #[trigger] x[j] || (x[i] == x[j] && y[i] <= y[j])) }
pub open spec fn tri(n: int) -> int { n * (n - 1) / 2 }
proof fn tri_step(n: int) ensures tri(n + 1) == tri(n) + n { assert((n + 1) * n == n * (n - 1) + 2 * n) by(nonlinear_arith); }
proof fn tri_le(m: int, n: int) requires 0 <= m <= n ensures 0 <= tri(m) <= tri(n) decreases n { assert(0 * (0 - 1) == 0); if m < n { tri_le(m, n - 1); tri_step(n - 1); } else if n > 0 { tri_le(n - 1, n - 1); tri_step(n - 1); } }
proof fn tri_big(n: int) requires 0 <= n <= 0x8000_0000 ensures 0 <= tri(n) <= 0x2000_0000_0000_0000, 0 <= n * (n - 1) + 2 * n, n * (n - 1) <= 0x4000_0000_0000_0000
{ tri_le(0, n); assert(n * (n - 1) <= 0x4000_0000_0000_0000) by(nonlinear_arith) requires 0 <= n <= 0x8000_0000; assert(0 <= n * (n - 1) + 2 * n) by(nonlinear_arith) requires n >= 0; }
proof fn c_le(s: Seq<u32>, t: Seq<u32>, v: u32, w: u32, n: int) requires 0 <= n ensures gtc(s, v, n) <= n, eqc(s, v, n) <= n, eqc2(s, t, v, w, n) <= eqc(s, v, n), eqc2(s, t, v, w, n) <= eqc(t, w, n) decreases n { if n > 0 { c_le(s, t, v, w, n - 1); } }
proof fn p_le(s: Seq<u32>, t: Seq<u32>, n: int) requires 0 <= n ensures inv(s, n) <= tri(n), eqp(s, n) <= tri(n), eqp2(s, t, n) <= eqp(s, n), eqp2(s, t, n) <= eqp(t, n) decreases n
{ assert(0 * (0 - 1) == 0); if n > 0 { p_le(s, t, n - 1); c_le(s, t, s[n - 1], t[n - 1], n - 1); tri_step(n - 1); } }
// Kendall's identity
proof fn conc_row(x: Seq<u32>, y: Seq<u32>, m: int, n: int) requires lex(x, y), 0 <= n <= m < x.len()
  ensures concl(x, y, m, n) == n - eqc(x, x[m], n) - eqc(y, y[m], n) + eqc2(x, y, x[m], y[m], n) - 2 * gtc(y, y[m], n) decreases n
{ if n > 0 { conc_row(x, y, m, n - 1); assert(x[n - 1] < x[m] || (x[n - 1] == x[m] && y[n - 1] <= y[m])); let s = sg(y[m], y[n - 1]); assert(1 * s == s); assert(0 * s == 0); } }
proof fn conc_id(x: Seq<u32>, y: Seq<u32>, n: int) requires lex(x, y), 0 <= n <= x.len()
  ensures conc(x, y, n) == tri(n) - eqp(x, n) - eqp(y, n) + eqp2(x, y, n) - 2 * inv(y, n) decreases n
{ assert(0 * (0 - 1) == 0); if n > 0 { conc_id(x, y, n - 1); conc_row(x, y, n - 1, n - 1); tri_step(n - 1); } }
// a run of ties in a sorted sequence
proof fn run0(s: Seq<u32>, v: u32, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] != v ensures eqc(s, v, n) == 0 decreases n { if n > 0 { run0(s, v, n - 1); } }
proof fn run02(s: Seq<u32>, t: Seq<u32>, v: u32, w: u32, n: int) requires 0 <= n <= s.len(), s.len() == t.len(), forall|i: int| 0 <= i < n ==> !(#[trigger] s[i] == v && t[i] == w) ensures eqc2(s, t, v, w, n) == 0 decreases n { if n > 0 { run02(s, t, v, w, n - 1); } }
// exchanging neighbours
pub open spec fn swp(s: Seq<u32>, k: int) -> Seq<u32> { s.update(k, s[k + 1]).update(k + 1, s[k]) }
proof fn swp_c(s: Seq<u32>, k: int, v: u32, n: int) requires 0 <= k, k + 1 < s.len(), 0 <= n <= s.len(), n != k + 1 ensures gtc(swp(s, k), v, n) == gtc(s, v, n), eqc(swp(s, k), v, n) == eqc(s, v, n) decreases n
{ let t = swp(s, k); if n > 0 { if n == k + 2 { swp_c(s, k, v, k); assert(gtc(s, v, n) == gtc(s, v, k) + (if s[k] > v { 1nat } else { 0nat }) + (if s[k + 1] > v { 1nat } else { 0nat })) by { assert(gtc(s, v, k + 1) == gtc(s, v, k) + (if s[k] > v { 1nat } else { 0nat })); }
    assert(gtc(t, v, k + 1) == gtc(t, v, k) + (if t[k] > v { 1nat } else { 0nat })); assert(eqc(s, v, k + 1) == eqc(s, v, k) + (if s[k] == v { 1nat } else { 0nat })); assert(eqc(t, v, k + 1) == eqc(t, v, k) + (if t[k] == v { 1nat } else { 0nat })); }
  else { swp_c(s, k, v, n - 1); } } }
proof fn swp_p(s: Seq<u32>, k: int, n: int) requires 0 <= k, k + 1 < s.len(), 0 <= n <= s.len(), n >= k + 2 || n <= k
  ensures eqp(swp(s, k), n) == eqp(s, n), n <= k ==> inv(swp(s, k), n) == inv(s, n),
    n >= k + 2 ==> inv(swp(s, k), n) + (if s[k] > s[k + 1] { 1int } else { 0 }) == inv(s, n) + (if s[k + 1] > s[k] { 1int } else { 0 }) decreases n
{ let t = swp(s, k); if n > 0 { if n == k + 2 { swp_p(s, k, k); swp_c(s, k, s[k], k); swp_c(s, k, s[k + 1], k);
    assert(inv(s, k + 1) == inv(s, k) + gtc(s, s[k], k)); assert(inv(t, k + 1) == inv(t, k) + gtc(t, t[k], k)); assert(eqp(s, k + 1) == eqp(s, k) + eqc(s, s[k], k)); assert(eqp(t, k + 1) == eqp(t, k) + eqc(t, t[k], k));
    assert(gtc(s, s[k + 1], k + 1) == gtc(s, s[k + 1], k) + (if s[k] > s[k + 1] { 1nat } else { 0nat })); assert(gtc(t, t[k + 1], k + 1) == gtc(t, t[k + 1], k) + (if t[k] > t[k + 1] { 1nat } else { 0nat }));
    assert(eqc(s, s[k + 1], k + 1) == eqc(s, s[k + 1], k) + (if s[k] == s[k + 1] { 1nat } else { 0nat })); assert(eqc(t, t[k + 1], k + 1) == eqc(t, t[k + 1], k) + (if t[k] == t[k + 1] { 1nat } else { 0nat })); }
  else { swp_p(s, k, n - 1); swp_c(s, k, s[n - 1], n - 1); } } }
// moving the entry at q in front of a block of larger entries
pub open spec fn mv(s: Seq<u32>, p: int, q: int) -> Seq<u32> { s.take(p).push(s[q]) + s.subrange(p, q) + s.skip(q + 1) }
proof fn mv_p(s: Seq<u32>, p: int, q: int) requires 0 <= p <= q < s.len(), forall|i: int| p <= i < q ==> #[trigger] s[i] > s[q]
  ensures mv(s, p, q).len() == s.len(), inv(mv(s, p, q), s.len() as int) + (q - p) == inv(s, s.len() as int), eqp(mv(s, p, q), s.len() as int) == eqp(s, s.len() as int) decreases q - p
{ if p == q { assert(mv(s, p, q) =~= s); } else { let t = swp(s, q - 1); swp_p(s, q - 1, s.len() as int); mv_p(t, p, q - 1); assert(mv(t, p, q - 1) =~= mv(s, p, q)); } }
proof fn inv_sorted(s: Seq<u32>, n: int) requires 0 <= n <= s.len(), forall|i: int, j: int| 0 <= i <= j < n ==> s[i] <= s[j] ensures inv(s, n) == 0 decreases n
{ if n > 0 { inv_sorted(s, n - 1); gt0(s, s[n - 1], n - 1); } }
proof fn gt0(s: Seq<u32>, v: u32, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] <= v ensures gtc(s, v, n) == 0 decreases n { if n > 0 { gt0(s, v, n - 1); } }
// blocks of g entries are sorted
pub open spec fn blk(s: Seq<u32>, g: int, n: int) -> bool { forall|i: int, j: int| 0 <= i <= j < n && i / g == j / g ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn cur(c: Seq<u32>, s: Seq<u32>, l: int, i: int, e: int, j: int) -> Seq<u32> { c.take(l) + s.subrange(i, e) + s.skip(j) }
proof fn in_blk(i: int, g: int, k: int) requires g > 0, k * g <= i < k * g + g ensures i / g == k { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, g, k, i - k * g); }
proof fn below_blk(i: int, g: int, k: int) requires g > 0, 0 <= i < k * g ensures i / g < k { assert(i / g < k) by(nonlinear_arith) requires g > 0, 0 <= i < k * g; }
pub open spec fn tie2(c: int) -> int { c * (c - 1) / 2 }
proof fn tie2_step(c: int) ensures tie2(c + 1) == tie2(c) + c { tri_step(c); }
//@fn file=stats/kendall_tau.rs path=pl_kendall_tau name=tau
//@sig fn tau(x: &[u32], y: &[u32], n: usize, n_pairs: i64)
//@from let mut tied_x
//@through let out
//@spec
requires n == x.len(), lex(x@, y@), 2 <= n <= 0x8000_0000, n_pairs == tri(n as int), eqp(x@, n as int) < tri(n as int), eqp(y@, n as int) < tri(n as int)
//@at fn.start
proof { tri_big(n as int); p_le(x@, y@, n as int); p_le(y@, x@, n as int); assert(eqp(x@, 1) == 0 && eqp2(x@, y@, 1) == 0) by { assert(eqp(x@, 0) == 0); assert(eqp2(x@, y@, 0) == 0); } assert(1 * (1 - 1) == 0);
  assert(eqc(x@, x@[0], 1) == 1 && eqc2(x@, y@, x@[0], y@[0], 1) == 1) by { assert(eqc(x@, x@[0], 0) == 0); assert(eqc2(x@, y@, x@[0], y@[0], 0) == 0); } }
//@loop 0
invariant __i0 <= __n0, __n0 == n - 1, n == x.len(), n == y.len(), lex(x@, y@), 2 <= n <= 0x8000_0000, xj == x@[__i0 as int], yj == y@[__i0 as int],
  consecutive_x_ties == eqc(x@, xj, __i0 + 1), consecutive_xy_ties == eqc2(x@, y@, xj, yj, __i0 + 1),
  tied_x + tie2(consecutive_x_ties as int) == eqp(x@, __i0 + 1), tied_xy + tie2(consecutive_xy_ties as int) == eqp2(x@, y@, __i0 + 1), tied_x >= 0, tied_xy >= 0, consecutive_x_ties >= 1, consecutive_xy_ties >= 1,
decreases __n0 - __i0
//@at loop0.start
proof { let k = __i0 as int; c_le(x@, y@, xj, yj, k + 1); tri_big(consecutive_x_ties as int); tri_big(consecutive_xy_ties as int);  p_le(x@, y@, k + 1); p_le(x@, y@, k + 2); tri_le(k + 2, n as int); tri_le(k + 1, n as int); tri_big(n as int);
  tie2_step(consecutive_x_ties as int); tie2_step(consecutive_xy_ties as int); assert(tie2(1) == 0); tri_big(k + 2);
  let (z, w) = ((consecutive_x_ties * (consecutive_x_ties - 1)) as i64, (consecutive_xy_ties * (consecutive_xy_ties - 1)) as i64);
  assert(z >> 1 == z / 2) by(bit_vector) requires z >= 0; assert(w >> 1 == w / 2) by(bit_vector) requires w >= 0;
  if x@[k + 1] != xj { assert forall|i: int| 0 <= i < k + 1 implies #[trigger] x@[i] != x@[k + 1] by { assert(x@[i] <= x@[k]); assert(x@[k] <= x@[k + 1]); } run0(x@, x@[k + 1], k + 1); run02(x@, y@, x@[k + 1], y@[k + 1], k + 1); }
  else if y@[k + 1] != yj { assert forall|i: int| 0 <= i < k + 1 implies !(#[trigger] x@[i] == x@[k + 1] && y@[i] == y@[k + 1]) by { assert(x@[i] < x@[k] || (x@[i] == x@[k] && y@[i] <= y@[k])); assert(x@[k] < x@[k + 1] || y@[k] <= y@[k + 1]); } run02(x@, y@, x@[k + 1], y@[k + 1], k + 1); } }
//@at loop0.post
proof { c_le(x@, y@, xj, yj, n as int); tri_big(consecutive_x_ties as int); tri_big(consecutive_xy_ties as int);  tri_big(n as int);
  let (z, w) = ((consecutive_x_ties * (consecutive_x_ties - 1)) as i64, (consecutive_xy_ties * (consecutive_xy_ties - 1)) as i64);
  assert(z >> 1 == z / 2) by(bit_vector) requires z >= 0; assert(w >> 1 == w / 2) by(bit_vector) requires w >= 0; }
//@at let.y_copy.0
let ghost y0 = y@; let ghost N = n as int;
proof { assert(y0.len() == n); assert(yy@ =~= y0); assert(blk(yy@, 1, N)); }
//@loop 1
invariant 1 <= seg_size, seg_size < 2 * n, 2 <= n <= 0x8000_0000, N == n, y0.len() == n, yy.len() == n, xx.len() == n, x_copy.len() == n, y_copy.len() == n, blk(yy@, seg_size as int, N),
  swaps + inv(yy@, N) == inv(y0, N), eqp(yy@, N) == eqp(y0, N),
decreases 2 * n - seg_size
//@at loop1.start
let ghost g = seg_size as int; let ghost mut kb: int = 0;
proof { assert(seg_size << 1 == 2 * seg_size) by(bit_vector) requires seg_size < 0x8000_0000; assert(0 * g == 0); assert(cur(y_copy@, yy@, 0, 0, 0, 0) =~= yy@); }
//@loop 2
invariant g == seg_size, seg_size << 1 == 2 * seg_size, 1 <= seg_size < n, 2 <= n <= 0x8000_0000, N == n, y0.len() == n, yy.len() == n, xx.len() == n, x_copy.len() == n, y_copy.len() == n, blk(yy@, g, N),
  kb >= 0, offset == 2 * kb * g, offset < n + 2 * g,
  blk(y_copy@, 2 * g, if offset <= n { offset as int } else { N }),
  ({ let o = if offset <= n { offset as int } else { N }; let w = cur(y_copy@, yy@, o, o, o, o); swaps + inv(w, N) == inv(y0, N) && eqp(w, N) == eqp(y0, N) }),
decreases n + 2 * g - offset
//@at loop2.start
let ghost yc0 = y_copy@;
proof { assert((2 * kb) * g == 2 * kb * g) by(nonlinear_arith); assert((2 * kb + 1) * g == 2 * kb * g + g) by(nonlinear_arith); assert((kb + 1) * (2 * g) == 2 * kb * g + 2 * g) by(nonlinear_arith); assert(kb * (2 * g) == 2 * kb * g) by(nonlinear_arith); p_le(y0, y0, N); tri_big(N); }
//@at let.copy_loc.0
proof { assert(cur(y_copy@, yy@, offset as int, i as int, i_end as int, j as int) =~= cur(y_copy@, yy@, offset as int, offset as int, offset as int, offset as int));
  assert forall|a: int, b: int| offset <= a <= b < i_end implies #[trigger] yy@[a] <= #[trigger] yy@[b] by { in_blk(a, g, 2 * kb); in_blk(b, g, 2 * kb); }
  assert forall|a: int, b: int| i_end <= a <= b < j_end implies #[trigger] yy@[a] <= #[trigger] yy@[b] by { in_blk(a, g, 2 * kb + 1); in_blk(b, g, 2 * kb + 1); } }
//@loop 3
invariant g == seg_size, 1 <= seg_size < n, 2 <= n <= 0x8000_0000, N == n, y0.len() == n, yy.len() == n, xx.len() == n, x_copy.len() == n, y_copy.len() == n, inv(y0, N) <= 0x2000_0000_0000_0000,
  offset <= i <= i_end <= j <= j_end <= n, copy_loc == offset + (i - offset) + (j - i_end), yc0.len() == n, forall|a: int| 0 <= a < offset ==> y_copy@[a] == yc0[a],
  forall|a: int, b: int| offset <= a <= b < i_end ==> #[trigger] yy@[a] <= #[trigger] yy@[b], forall|a: int, b: int| i_end <= a <= b < j_end ==> #[trigger] yy@[a] <= #[trigger] yy@[b],
  forall|a: int, b: int| offset <= a <= b < copy_loc ==> #[trigger] y_copy@[a] <= #[trigger] y_copy@[b],
  forall|a: int, b: int| offset <= a < copy_loc && i <= b < i_end ==> #[trigger] y_copy@[a] <= #[trigger] yy@[b], forall|a: int, b: int| offset <= a < copy_loc && j <= b < j_end ==> #[trigger] y_copy@[a] <= #[trigger] yy@[b],
  ({ let w = cur(y_copy@, yy@, copy_loc as int, i as int, i_end as int, j as int); swaps + inv(w, N) == inv(y0, N) && eqp(w, N) == eqp(y0, N) }),
decreases n - copy_loc
//@at loop3.start
let ghost w0 = cur(y_copy@, yy@, copy_loc as int, i as int, i_end as int, j as int); let ghost yb = y_copy@;
//@at set.j.0
proof { let q = copy_loc + (i_end - i); assert(w0[q] == yy@[j - 1]); assert forall|a: int| copy_loc <= a < q implies #[trigger] w0[a] > w0[q] by { assert(w0[a] == yy@[i + (a - copy_loc)]); assert(yy@[i as int] <= yy@[i + (a - copy_loc)]); }
  mv_p(w0, copy_loc as int, q); assert(cur(y_copy@, yy@, copy_loc + 1, i as int, i_end as int, j as int) =~= mv(w0, copy_loc as int, q)); }
//@at set.i.0
proof { assert(cur(y_copy@, yy@, copy_loc + 1, i as int, i_end as int, j as int) =~= w0); }
//@at set.i.1
proof { assert(cur(y_copy@, yy@, copy_loc + 1, i as int, i_end as int, j as int) =~= w0); }
//@at set.j.1
proof { assert(cur(y_copy@, yy@, copy_loc + 1, i as int, i_end as int, j as int) =~= w0); }
//@at set.offset.0
proof { kb = kb + 1; assert(2 * kb * g == 2 * (kb - 1) * g + 2 * g) by(nonlinear_arith); let o = if offset <= n { offset as int } else { N };
  assert(cur(y_copy@, yy@, o, o, o, o) =~= cur(y_copy@, yy@, o, o, o, o));
  assert forall|a: int, b: int| 0 <= a <= b < o && a / (2 * g) == b / (2 * g) implies #[trigger] y_copy@[a] <= #[trigger] y_copy@[b] by {
    let st = offset - 2 * g; if b < st { assert(y_copy@[a] == yc0[a] && y_copy@[b] == yc0[b]); } else if a < st { in_blk(b, 2 * g, kb - 1); below_blk(a, 2 * g, kb - 1); } } }
//@at before.std::mem::swap.1
proof { assert(cur(y_copy@, yy@, N, N, N, N) =~= y_copy@); }
//@at set.seg_size.0
proof { assert(seg_size == 2 * g); }
//@at loop1.post
proof { assert forall|i: int, j: int| 0 <= i <= j < N implies #[trigger] yy@[i] <= #[trigger] yy@[j] by { in_blk(i, seg_size as int, 0); in_blk(j, seg_size as int, 0); } inv_sorted(yy@, N); }
//@at let.prev.0
proof { assert(eqp(yy@, 1) == 0) by { assert(eqp(yy@, 0) == 0); } assert(eqc(yy@, yy@[0], 1) == 1) by { assert(eqc(yy@, yy@[0], 0) == 0); } assert(tie2(1) == 0); }
//@loop 4
invariant __i4 <= __n4, __n4 == n - 1, n == yy.len(), N == n, 2 <= n <= 0x8000_0000, forall|i: int, j: int| 0 <= i <= j < N ==> #[trigger] yy@[i] <= #[trigger] yy@[j], prev == yy@[__i4 as int],
  consecutive_y_ties == eqc(yy@, prev, __i4 + 1), tied_y + tie2(consecutive_y_ties as int) == eqp(yy@, __i4 + 1), tied_y >= 0, consecutive_y_ties >= 1,
decreases __n4 - __i4
//@at loop4.start
proof { let k = __i4 as int; c_le(yy@, yy@, prev, prev, k + 1); tri_big(consecutive_y_ties as int);  p_le(yy@, yy@, k + 1); p_le(yy@, yy@, k + 2); tri_le(k + 2, N); tri_le(k + 1, N); tri_big(N); tie2_step(consecutive_y_ties as int); assert(tie2(1) == 0);
  let z = (consecutive_y_ties * (consecutive_y_ties - 1)) as i64; assert(z >> 1 == z / 2) by(bit_vector) requires z >= 0;
  if yy@[k + 1] != prev { assert forall|i: int| 0 <= i < k + 1 implies #[trigger] yy@[i] != yy@[k + 1] by { assert(yy@[i] <= yy@[k]); assert(yy@[k] <= yy@[k + 1]); } run0(yy@, yy@[k + 1], k + 1); } }
//@at loop4.post
proof { c_le(yy@, yy@, prev, prev, N); tri_big(consecutive_y_ties as int);  tri_big(N); p_le(yy@, yy@, N);
  let z = (consecutive_y_ties * (consecutive_y_ties - 1)) as i64; assert(z >> 1 == z / 2) by(bit_vector) requires z >= 0; conc_id(x@, y0, N);
  let k = swaps; assert(k << 1 == 2 * k) by(bit_vector) requires k <= 0x2000_0000_0000_0000; p_le(y0, x@, N); p_le(x@, y0, N); }
//@at let.nc_m_nd.0
proof { let (a, b) = ((n_pairs - tied_x) as int as real, (n_pairs - tied_y) as int as real); assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; let s = rsqrt(a * b); rsqrt_def(a * b); assert(s != 0real) by(nonlinear_arith) requires s * s > 0real; }
//@at let.out.0
proof { assert(out@ == (conc(x@, y0, N) as real) / rsqrt(((tri(N) - eqp(x@, N)) as real) * ((tri(N) - eqp(y0, N)) as real))); }
//@end
}
fn main(){}
