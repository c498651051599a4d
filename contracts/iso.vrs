//@include prelude_real.rs
//@default types=T:R,f64:R
verus!{
// weighted isotonic regression: weights, data, and a candidate level c for the positions a..m
pub open spec fn ws(w: Seq<real>, a: int, m: int) -> real decreases m - a { if m <= a { 0real } else { ws(w, a, m - 1) + w[m - 1] } }
pub open spec fn wx(w: Seq<real>, x: Seq<real>, a: int, m: int) -> real decreases m - a { if m <= a { 0real } else { wx(w, x, a, m - 1) + w[m - 1] * x[m - 1] } }
// cumulative residual of the level c over a..m
pub open spec fn cum(w: Seq<real>, x: Seq<real>, a: int, m: int, c: real) -> real { wx(w, x, a, m) - c * ws(w, a, m) }
// a block a..e at level c: the level is the weighted mean, and every initial part has a mean that is not smaller
pub open spec fn blk(w: Seq<real>, x: Seq<real>, a: int, e: int, c: real) -> bool {
  &&& 0 <= a < e &&& cum(w, x, a, e, c) == 0real
  &&& forall|m: int| a <= m <= e ==> #[trigger] cum(w, x, a, m, c) >= 0real }
pub open spec fn vals(s: Seq<R>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn pos(w: Seq<real>) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] > 0real }

proof fn ws_split(w: Seq<real>, a: int, b: int, m: int) requires a <= b <= m ensures ws(w, a, m) == ws(w, a, b) + ws(w, b, m) decreases m - b
{ if b < m { ws_split(w, a, b, m - 1); } }
proof fn wx_split(w: Seq<real>, x: Seq<real>, a: int, b: int, m: int) requires a <= b <= m ensures wx(w, x, a, m) == wx(w, x, a, b) + wx(w, x, b, m) decreases m - b
{ if b < m { wx_split(w, x, a, b, m - 1); } }
proof fn ws_mono(w: Seq<real>, a: int, m: int, e: int) requires 0 <= a <= m <= e <= w.len(), pos(w) ensures ws(w, a, m) <= ws(w, a, e), a < e ==> ws(w, a, e) > 0real, ws(w, a, m) >= 0real decreases e - a
{ if m < e { ws_mono(w, a, m, e - 1); assert(w[e - 1] > 0real); } else if a < e { ws_mono(w, a, e - 1, e - 1); assert(w[e - 1] > 0real); } }
proof fn single(w: Seq<real>, x: Seq<real>, a: int) requires 0 <= a < x.len(), w.len() == x.len() ensures blk(w, x, a, a + 1, x[a]), ws(w, a, a + 1) == w[a], wx(w, x, a, a + 1) == w[a] * x[a]
{ assert(ws(w, a, a) == 0real); assert(wx(w, x, a, a) == 0real); assert(ws(w, a, a + 1) == w[a]); assert(wx(w, x, a, a + 1) == w[a] * x[a]);
  assert(w[a] * x[a] == x[a] * w[a]) by(nonlinear_arith);
  assert forall|m: int| a <= m <= a + 1 implies #[trigger] cum(w, x, a, m, x[a]) >= 0real by { assert(m == a || m == a + 1); assert(x[a] * 0real == 0real) by(nonlinear_arith); } }
// two adjacent blocks whose levels are not increasing merge into one block at the joint mean
proof fn merge(w: Seq<real>, x: Seq<real>, a: int, b: int, e: int, c1: real, c2: real, c: real)
  requires blk(w, x, a, b, c1), blk(w, x, b, e, c2), c1 >= c2, e <= x.len(), w.len() == x.len(), pos(w), c * ws(w, a, e) == wx(w, x, a, e)
  ensures blk(w, x, a, e, c), c2 <= c <= c1
{ ws_split(w, a, b, e); wx_split(w, x, a, b, e); ws_mono(w, a, b, b); ws_mono(w, b, e, e); ws_mono(w, a, e, e);
  let (p, q) = (ws(w, a, b), ws(w, b, e));
  assert(cum(w, x, a, b, c1) == 0real && cum(w, x, b, e, c2) == 0real);
  assert(c * (p + q) == c1 * p + c2 * q);
  assert(c <= c1) by(nonlinear_arith) requires c * (p + q) == c1 * p + c2 * q, c1 >= c2, p > 0real, q > 0real;
  assert(c2 <= c) by(nonlinear_arith) requires c * (p + q) == c1 * p + c2 * q, c1 >= c2, p > 0real, q > 0real;
  assert((c1 - c) * p == (c - c2) * q) by(nonlinear_arith) requires c * (p + q) == c1 * p + c2 * q;
  assert forall|m: int| a <= m <= e implies #[trigger] cum(w, x, a, m, c) >= 0real by {
    if m <= b { assert(cum(w, x, a, m, c1) >= 0real); ws_mono(w, a, m, b); let s = ws(w, a, m);
      assert(c1 * s - c * s == (c1 - c) * s) by(nonlinear_arith); assert((c1 - c) * s >= 0real) by(nonlinear_arith) requires c1 >= c, s >= 0real; }
    else { ws_split(w, a, b, m); wx_split(w, x, a, b, m); ws_mono(w, b, m, e); assert(cum(w, x, b, m, c2) >= 0real); let s = ws(w, b, m);
      assert((c - c2) * s <= (c - c2) * q) by(nonlinear_arith) requires c >= c2, s <= q;
      assert((c1 - c) * p == c1 * p - c * p) by(nonlinear_arith); assert((c - c2) * s == c * s - c2 * s) by(nonlinear_arith);
      assert(c * (p + s) == c * p + c * s) by(nonlinear_arith); } } }
// prefix of weighted products of residual x - z with a direction u - z
pub open spec fn dot(w: Seq<real>, x: Seq<real>, z: Seq<real>, u: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { dot(w, x, z, u, n - 1) + w[n - 1] * (x[n - 1] - z[n - 1]) * (u[n - 1] - z[n - 1]) } }
pub open spec fn res(w: Seq<real>, x: Seq<real>, z: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { res(w, x, z, n - 1) + w[n - 1] * (x[n - 1] - z[n - 1]) } }
pub open spec fn loss(w: Seq<real>, x: Seq<real>, z: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { loss(w, x, z, n - 1) + w[n - 1] * ((x[n - 1] - z[n - 1]) * (x[n - 1] - z[n - 1])) } }
pub open spec fn mono(z: Seq<real>) -> bool { forall|i: int, j: int| 0 <= i <= j < z.len() ==> #[trigger] z[i] <= #[trigger] z[j] }
// the conditions that decide optimality: the cumulative residual is never negative, and 0 wherever the fit steps up and at the end
pub open spec fn kkt(w: Seq<real>, x: Seq<real>, z: Seq<real>) -> bool {
  &&& z.len() == x.len() &&& mono(z)
  &&& forall|m: int| 0 <= m <= x.len() ==> #[trigger] res(w, x, z, m) >= 0real
  &&& forall|m: int| 0 < m < x.len() && z[m - 1] != z[m] ==> #[trigger] res(w, x, z, m) == 0real
  &&& res(w, x, z, x.len() as int) == 0real }
proof fn abel(w: Seq<real>, x: Seq<real>, z: Seq<real>, u: Seq<real>, n: int)
  requires kkt(w, x, z), mono(u), u.len() == x.len(), 1 <= n <= x.len()
  ensures dot(w, x, z, u, n) <= res(w, x, z, n) * (u[n - 1] - z[n - 1]) decreases n
{ reveal_with_fuel(dot, 3); reveal_with_fuel(res, 3);
  let d = w[n - 1] * (x[n - 1] - z[n - 1]); let h = u[n - 1] - z[n - 1];
  if n == 1 { assert(res(w, x, z, 1) == d); assert(dot(w, x, z, u, 1) == d * h); }
  else { abel(w, x, z, u, n - 1); let r = res(w, x, z, n - 1); let g = u[n - 2] - z[n - 2];
    assert(r >= 0real); assert(u[n - 2] <= u[n - 1]);
    assert(r * g <= r * h) by { if z[n - 2] != z[n - 1] { assert(r == 0real); assert(r * g == 0real && r * h == 0real) by(nonlinear_arith) requires r == 0real; }
      else { assert(r * g <= r * h) by(nonlinear_arith) requires r >= 0real, g <= h; } }
    assert((r + d) * h == r * h + d * h) by(nonlinear_arith); } }
proof fn loss_split(w: Seq<real>, x: Seq<real>, z: Seq<real>, u: Seq<real>, n: int)
  requires 0 <= n <= x.len(), w.len() == x.len(), z.len() == x.len(), u.len() == x.len(), pos(w)
  ensures loss(w, x, u, n) >= loss(w, x, z, n) - 2real * dot(w, x, z, u, n) decreases n
{ if n > 0 { loss_split(w, x, z, u, n - 1); let (c, a, b) = (w[n - 1], x[n - 1] - z[n - 1], u[n - 1] - z[n - 1]);
    assert(x[n - 1] - u[n - 1] == a - b);
    assert(c * ((a - b) * (a - b)) == c * (a * a) - 2real * (c * a * b) + c * (b * b)) by(nonlinear_arith);
    assert(c * (b * b) >= 0real) by(nonlinear_arith) requires c > 0real; } }
// what the conditions mean: no non-decreasing sequence has a smaller weighted squared error
pub proof fn kkt_optimal(w: Seq<real>, x: Seq<real>, z: Seq<real>, u: Seq<real>)
  requires kkt(w, x, z), mono(u), u.len() == x.len(), w.len() == x.len(), pos(w)
  ensures loss(w, x, z, x.len() as int) <= loss(w, x, u, x.len() as int)
{ let n = x.len() as int; loss_split(w, x, z, u, n);
  if n >= 1 { abel(w, x, z, u, n); let h = u[n - 1] - z[n - 1]; assert(res(w, x, z, n) * h == 0real) by(nonlinear_arith) requires res(w, x, z, n) == 0real; }
  else { assert(dot(w, x, z, u, 0) == 0real); } }

// blocks 0..nb of the data up to position i
pub open spec fn blocks(w: Seq<real>, x: Seq<real>, lev: Seq<R>, r: Seq<usize>, nb: int, i: int) -> bool {
  &&& r[0] == 0 &&& r[nb] == i &&& 0 <= nb <= i <= x.len()
  &&& forall|k: int| 0 <= k < nb ==> #[trigger] blk(w, x, r[k] as int, r[k + 1] as int, lev[k]@)
  &&& forall|k: int| 0 <= k < nb - 1 ==> (#[trigger] lev[k])@ <= lev[k + 1]@ }
pub open spec fn bw(w: Seq<real>, cw: Seq<R>, r: Seq<usize>, nb: int) -> bool {
  forall|k: int| 0 <= k < nb ==> (#[trigger] cw[k])@ == ws(w, r[k] as int, r[k + 1] as int) }
proof fn blocks_r(w: Seq<real>, x: Seq<real>, lev: Seq<R>, r: Seq<usize>, nb: int, i: int, k: int)
  requires blocks(w, x, lev, r, nb, i), 0 <= k <= nb
  ensures k <= r[k] <= i, k < nb ==> r[k] < r[k + 1] <= i
  decreases nb - k
{ blocks_lo(w, x, lev, r, nb, i, k); if k < nb { blocks_r(w, x, lev, r, nb, i, k + 1); assert(blk(w, x, r[k] as int, r[k + 1] as int, lev[k]@)); } }
proof fn blocks_lo(w: Seq<real>, x: Seq<real>, lev: Seq<R>, r: Seq<usize>, nb: int, i: int, k: int)
  requires blocks(w, x, lev, r, nb, i), 0 <= k <= nb ensures k <= r[k] decreases k
{ if k > 0 { blocks_lo(w, x, lev, r, nb, i, k - 1); assert(blk(w, x, r[k - 1] as int, r[k - 1 + 1] as int, lev[k - 1]@)); } }
// level of the block is w-weighted mean of w*level: the block's sum of products
proof fn blk_sum(w: Seq<real>, x: Seq<real>, a: int, e: int, c: real) requires blk(w, x, a, e, c) ensures wx(w, x, a, e) == c * ws(w, a, e)
{ assert(cum(w, x, a, e, c) == 0real); }

// a fit that is constant on the blocks meets the conditions
pub open spec fn flat(z: Seq<R>, lev: Seq<R>, r: Seq<usize>, k0: int, nb: int) -> bool {
  forall|k: int, i: int| k0 <= k < nb && r[k] <= i < r[k + 1] ==> (#[trigger] z[i])@ == (#[trigger] lev[k])@ }
proof fn res_block(w: Seq<real>, x: Seq<real>, z: Seq<real>, a: int, m: int, c: real)
  requires 0 <= a <= m <= x.len(), z.len() == x.len(), w.len() == x.len(), forall|i: int| a <= i < m ==> #[trigger] z[i] == c
  ensures res(w, x, z, m) == res(w, x, z, a) + cum(w, x, a, m, c) decreases m - a
{ if a < m { res_block(w, x, z, a, m - 1, c); assert(z[m - 1] == c); let (p, q) = (w[m - 1], ws(w, a, m - 1));
    assert(p * (x[m - 1] - c) == p * x[m - 1] - c * p) by(nonlinear_arith);
    assert(c * (q + p) == c * q + c * p) by(nonlinear_arith); }
  else { assert(c * 0real == 0real) by(nonlinear_arith); } }
pub open spec fn inb(r: Seq<usize>, k: int, m: int) -> bool { r[k] <= m < r[k + 1] }
proof fn find_blk(w: Seq<real>, x: Seq<real>, lev: Seq<R>, r: Seq<usize>, nb: int, i: int, m: int) -> (k: int)
  requires blocks(w, x, lev, r, nb, i), 0 <= m < r[nb], nb <= i ensures 0 <= k < nb, inb(r, k, m) decreases nb
{ if r[nb - 1] <= m { nb - 1 } else { 
    assert(nb - 1 > 0); blocks_r(w, x, lev, r, nb, i, nb - 1);
    find_blk(w, x, lev, r, nb - 1, r[nb - 1] as int, m) } }
proof fn res_start(w: Seq<real>, x: Seq<real>, z: Seq<real>, zz: Seq<R>, lev: Seq<R>, r: Seq<usize>, nb: int, k: int)
  requires blocks(w, x, lev, r, nb, x.len() as int), flat(zz, lev, r, 0, nb), zz.len() == x.len(), z == vals(zz), w.len() == x.len(), 0 <= k <= nb
  ensures res(w, x, z, r[k] as int) == 0real decreases k
{ if k > 0 { res_start(w, x, z, zz, lev, r, nb, k - 1); blocks_r(w, x, lev, r, nb, x.len() as int, k - 1); let a = r[k - 1] as int; let e = r[k - 1 + 1] as int;
    assert(blk(w, x, a, e, lev[k - 1]@));
    assert forall|i: int| a <= i < e implies #[trigger] z[i] == lev[k - 1]@ by { assert(zz[i]@ == lev[k - 1]@); }
    res_block(w, x, z, a, e, lev[k - 1]@); } }
proof fn lev_mono(w: Seq<real>, x: Seq<real>, lev: Seq<R>, r: Seq<usize>, nb: int, i: int, k: int, l: int)
  requires blocks(w, x, lev, r, nb, i), 0 <= k <= l < nb ensures lev[k]@ <= lev[l]@ decreases l - k
{ if k < l { lev_mono(w, x, lev, r, nb, i, k, l - 1); assert(lev[l - 1]@ <= lev[l - 1 + 1]@); } }
proof fn r_mono(w: Seq<real>, x: Seq<real>, lev: Seq<R>, r: Seq<usize>, nb: int, i: int, k: int, l: int)
  requires blocks(w, x, lev, r, nb, i), 0 <= k <= l <= nb ensures r[k] <= r[l] decreases l - k
{ if k < l { r_mono(w, x, lev, r, nb, i, k, l - 1); blocks_r(w, x, lev, r, nb, i, l - 1); } }
proof fn kkt_blocks(w: Seq<real>, x: Seq<real>, zz: Seq<R>, lev: Seq<R>, r: Seq<usize>, nb: int)
  requires blocks(w, x, lev, r, nb, x.len() as int), flat(zz, lev, r, 0, nb), zz.len() == x.len(), w.len() == x.len(), pos(w)
  ensures kkt(w, x, vals(zz))
{ let z = vals(zz); let n = x.len() as int;
  assert forall|i: int, j: int| 0 <= i <= j < n implies #[trigger] z[i] <= #[trigger] z[j] by {
    let k = find_blk(w, x, lev, r, nb, n, i); let l = find_blk(w, x, lev, r, nb, n, j);
    if l < k { r_mono(w, x, lev, r, nb, n, l + 1, k); }
    lev_mono(w, x, lev, r, nb, n, k, l); assert(zz[i]@ == lev[k]@); assert(zz[j]@ == lev[l]@); }
  assert forall|m: int| 0 <= m <= n implies #[trigger] res(w, x, z, m) >= 0real && (0 < m < n && z[m - 1] != z[m] ==> res(w, x, z, m) == 0real) by {
    if m == n { res_start(w, x, z, zz, lev, r, nb, nb); }
    else { let k = find_blk(w, x, lev, r, nb, n, m); let a = r[k] as int; let e = r[k + 1] as int; res_start(w, x, z, zz, lev, r, nb, k); blocks_r(w, x, lev, r, nb, n, k);
      assert forall|i: int| a <= i < e implies #[trigger] z[i] == lev[k]@ by { assert(zz[i]@ == lev[k]@); }
      res_block(w, x, z, a, m, lev[k]@); assert(blk(w, x, a, e, lev[k]@)); assert(cum(w, x, a, m, lev[k]@) >= 0real);
      if m > a { assert(z[m] == lev[k]@); assert(z[m - 1] == lev[k]@); } } }
  res_start(w, x, z, zz, lev, r, nb, nb); }

//@fn file=num_ext/isotonic_regression.rs path=isotonic_regression
//@spec
requires old(x).len() >= 2, old(x).len() == old(w).len(), old(r).len() == old(x).len() + 1, pos(vals(old(w)@)), old(x).len() < usize::MAX
ensures final(x).len() == old(x).len(), kkt(vals(old(w)@), vals(old(x)@), vals(final(x)@))
//@at let.n.0
let ghost x0 = vals(x@); let ghost w0 = vals(w@); let ghost nn = x@.len() as int;
//@at let.i.0
proof { single(w0, x0, 0); }
//@loop 0
invariant 1 <= i <= n, b < i, n == nn, n < usize::MAX, x.len() == n, w.len() == n, r.len() == n + 1, x0.len() == n, w0.len() == n, pos(w0),
  blocks(w0, x0, x@, r@, b + 1, i as int), bw(w0, w@, r@, b + 1), xb_pre == x@[b as int], wb_pre == w@[b as int],
  forall|j: int| i <= j < n ==> (#[trigger] x@[j])@ == x0[j], forall|j: int| i <= j < n ==> (#[trigger] w@[j])@ == w0[j],
decreases n - i
//@at loop0.start
let ghost lv = x@; let ghost cw = w@; let ghost rr = r@; let ghost b0 = b as int; let ghost i0 = i as int;
proof { single(w0, x0, i0); }
//@at let.wb.0
proof { assert(xb@ == x0[i0] && wb@ == w0[i0]); }
//@at set.xb.0
proof { blocks_r(w0, x0, lv, rr, b0 + 1, i0, b0); assert(blk(w0, x0, rr[b0] as int, rr[b0 + 1] as int, lv[b0]@)); blk_sum(w0, x0, rr[b0] as int, i0, lv[b0]@);
  let a = rr[b0] as int; ws_split(w0, a, i0, i0 + 1); wx_split(w0, x0, a, i0, i0 + 1); ws_mono(w0, a, i0, i0 + 1); assert(cw[b0]@ == ws(w0, a, i0));
  let (p, q) = (lv[b0]@, cw[b0]@); assert(q * p == p * q) by(nonlinear_arith); assert(sb@ == wx(w0, x0, a, i0 + 1)); assert(wb@ == ws(w0, a, i0 + 1));
  let (s, t, u) = (sb@, wb@, xb@); assert(u * t == s) by(nonlinear_arith) requires u == s / t, t > 0real;
  merge(w0, x0, a, i0, i0 + 1, lv[b0]@, x0[i0], xb@); }
//@at set.wb.0
proof { blocks_r(w0, x0, lv, rr, b0 + 1, i0, b0); let a = rr[b0] as int; ws_split(w0, a, i0, i0 + 1); ws_mono(w0, a, i0, i0 + 1); assert(cw[b0]@ == ws(w0, a, i0)); assert(wb@ > 0real); }
//@loop 1
invariant i0 <= i < n, n == nn, n < usize::MAX, b == b0, x@ == lv, w@ == cw, r@ == rr, x.len() == n, w.len() == n, x0.len() == n, w0.len() == n, pos(w0), 
  0 <= rr[b0] < i0, wb@ > 0real, wb@ == ws(w0, rr[b0] as int, i + 1), sb@ == wx(w0, x0, rr[b0] as int, i + 1), blk(w0, x0, rr[b0] as int, i + 1, xb@),
  forall|j: int| i0 <= j < n ==> (#[trigger] x@[j])@ == x0[j], forall|j: int| i0 <= j < n ==> (#[trigger] w@[j])@ == w0[j],
decreases n - i
//@at loop1.start
let ghost xo = xb@; let ghost ii = i + 1;
//@at set.wb.1
proof { let a = rr[b0] as int; single(w0, x0, ii); ws_split(w0, a, ii, ii + 1); wx_split(w0, x0, a, ii, ii + 1); ws_mono(w0, a, ii, ii + 1); assert(wb@ > 0real);
  assert(wb@ == ws(w0, a, ii + 1)); assert(sb@ == wx(w0, x0, a, ii + 1)); }
//@at set.xb.1
proof { let a = rr[b0] as int; let (s, t, u) = (sb@, wb@, xb@); assert(u * t == s) by(nonlinear_arith) requires u == s / t, t > 0real;
  single(w0, x0, ii); merge(w0, x0, a, ii, ii + 1, xo, x0[ii], xb@); }
//@loop 2
invariant b <= b0, i < n, x@ == lv, w@ == cw, r@ == rr, x.len() == n, w.len() == n, x0.len() == n, w0.len() == n, pos(w0), n == nn, b0 < i0 <= i,
  blocks(w0, x0, lv, rr, b0 + 1, i0), bw(w0, cw, rr, b0 + 1), rr.len() == n + 1,
  0 <= rr[b as int] < i0, wb@ > 0real, wb@ == ws(w0, rr[b as int] as int, i + 1), sb@ == wx(w0, x0, rr[b as int] as int, i + 1), blk(w0, x0, rr[b as int] as int, i + 1, xb@),
decreases b
//@at loop2.start
let ghost xo = xb@; let ghost bo = b as int;
proof { blocks_r(w0, x0, lv, rr, b0 + 1, i0, bo - 1); let c = bo - 1; assert(blk(w0, x0, rr[c] as int, rr[c + 1] as int, lv[c]@)); blk_sum(w0, x0, rr[c] as int, rr[c + 1] as int, lv[c]@); }
//@at set.wb.2
proof { let a = rr[bo - 1] as int; let m = rr[bo] as int; ws_split(w0, a, m, i + 1); wx_split(w0, x0, a, m, i + 1); ws_mono(w0, a, m, i + 1);
  let (p, q) = (lv[bo - 1]@, cw[bo - 1]@); assert(cw[bo - 1]@ == ws(w0, a, m)); assert(q * p == p * q) by(nonlinear_arith); }
//@at set.xb.2
proof { let a = rr[bo - 1] as int; let m = rr[bo] as int; let (s, t, u) = (sb@, wb@, xb@); assert(u * t == s) by(nonlinear_arith) requires u == s / t, t > 0real;
  let c = bo - 1; assert(blk(w0, x0, rr[c] as int, rr[c + 1] as int, lv[c]@)); merge(w0, x0, a, m, i + 1, lv[bo - 1]@, xo, xb@); }
//@at set.r.2
proof { assert(b <= b0 + 1 && i >= i0);
  assert forall|k: int| 0 <= k < b + 1 implies #[trigger] blk(w0, x0, r@[k] as int, r@[k + 1] as int, x@[k]@) by { if k < b { assert(blk(w0, x0, rr[k] as int, rr[k + 1] as int, lv[k]@)); } }
  assert forall|k: int| 0 <= k < b + 1 - 1 implies (#[trigger] x@[k])@ <= x@[k + 1]@ by { if k + 1 < b { assert(lv[k]@ <= lv[k + 1]@); } }
  assert forall|k: int| 0 <= k < b + 1 implies (#[trigger] w@[k])@ == ws(w0, r@[k] as int, r@[k + 1] as int) by { if k < b { assert(cw[k]@ == ws(w0, rr[k] as int, rr[k + 1] as int)); } } }
//@at let.f.0
let ghost lev = x@; let ghost nb = b + 1; let ghost rf = r@;
//@loop 3
invariant __i3 <= __n3, __n3 == nb, __n1 == nb, nb == b + 1, x.len() == n, n == nn, r@ == rf, rf.len() == n + 1, x0.len() == n, w0.len() == n, lev.len() == n,
  blocks(w0, x0, lev, rf, nb as int, nn), f == rf[nb - __i3],
  forall|k: int| 0 <= k < nb - __i3 ==> #[trigger] x@[k] == lev[k], flat(x@, lev, rf, nb - __i3, nb as int),
decreases __n3 - __i3
//@at let.k.0
proof { blocks_r(w0, x0, lev, rf, nb as int, nn, k as int); }
let ghost xs = x@;
//@loop 4
invariant __i4 <= __n4, t + __n4 == f, f <= n, n == nn, x.len() == n, xk == lev[k as int], k <= t, xs.len() == n,
  forall|j: int| 0 <= j < n && !(t <= j < t + __i4) ==> #[trigger] x@[j] == xs[j], forall|j: int| t <= j < t + __i4 ==> #[trigger] x@[j] == xk,
decreases __n4 - __i4
//@at set.f.0
proof { assert forall|kk: int, i: int| nb - __i3 <= kk < nb && rf[kk] <= i < rf[kk + 1] implies (#[trigger] x@[i])@ == (#[trigger] lev[kk])@ by {
  if kk > k { r_mono(w0, x0, lev, rf, nb as int, nn, k + 1, kk); r_mono(w0, x0, lev, rf, nb as int, nn, kk + 1, nb as int); assert(xs[i]@ == lev[kk]@); } } }
//@at loop3.post
proof { kkt_blocks(w0, x0, x@, lev, rf, nb as int); }
//@end
}
fn main(){}
