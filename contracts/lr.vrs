//@include prelude_real.rs
//@include mat.rs
//@default types=T:R,f64:R mats=1 strip=OnlineLR,LR,ElasticNet
verus!{
// ---------------------------------------------------------------- the state of an online regression
pub open spec fn col(a: F2) -> F1 { |i: int| a(i, 0) }
pub open spec fn row(a: F2) -> F1 { |j: int| a(0, j) }
pub open spec fn sym(a: F2, p: int) -> bool { forall|i: int, j: int| 0 <= i < p && 0 <= j < p ==> #[trigger] a(i, j) == a(j, i) }
// q is the inverse of the symmetric matrix g
pub open spec fn st(q: F2, g: F2, p: int) -> bool { sym(q, p) && sym(g, p) && linv(q, g, p) }
// g w = b
pub open spec fn ne(g: F2, w: F1, b: F1, p: int) -> bool { forall|i: int| 0 <= i < p ==> #[trigger] mv(g, w, p)(i) == b(i) }
pub open spec fn upg(g: F2, x: F1, c: real) -> F2 { |i: int, j: int| g(i, j) + c * (x(i) * x(j)) }
pub open spec fn upb(b: F1, x: F1, y: real, c: real) -> F1 { |i: int| b(i) + c * (x(i) * y) }
pub open spec fn wden(q: F2, x: F1, p: int, c: real) -> real { 1real / c + dot(x, mv(q, x, p), p) }

// the transpose of a left inverse of a symmetric matrix is a right inverse
pub proof fn rinv(q: F2, g: F2, p: int) requires linv(q, g, p), sym(g, p), sym(q, p) ensures linv(g, q, p)
{
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] mm(g, q, p)(i, j) == idm(i, j) by {
    assert(mm(q, g, p)(j, i) == idm(j, i));
    let a = |t: int| g(i, t) * q(t, j);
    let b = |t: int| q(j, t) * g(t, i);
    assert forall|t: int| 0 <= t < p implies #[trigger] a(t) == b(t) by { assert(g(i, t) == g(t, i)); assert(q(t, j) == q(j, t)); let (u, v) = (g(t, i), q(j, t)); assert(u * v == v * u) by(nonlinear_arith); }
    sum_ext(a, b, p);
  }
}
// a two-sided inverse of a symmetric matrix is symmetric
pub proof fn inv_sym(q: F2, g: F2, p: int) requires linv(q, g, p), linv(g, q, p), sym(g, p) ensures sym(q, p)
{
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] q(i, j) == q(j, i) by {
    let qt = tr(q);
    let cj = |t: int| q(t, j);
    // (q^T g) q_j = q^T (g q_j)
    mv_assoc(qt, g, cj, p, p, i);
    // g q_j = e_j
    let ej = |t: int| idm(t, j);
    let gc = mv(g, cj, p);
    assert forall|t: int| 0 <= t < p implies #[trigger] gc(t) == ej(t) by { assert(mm(g, q, p)(t, j) == idm(t, j)); sum_ext(|s: int| g(t, s) * cj(s), |s: int| g(t, s) * q(s, j), p); }
    let l = |t: int| qt(i, t) * gc(t);
    let l1 = |t: int| qt(i, t) * ej(t);
    assert forall|t: int| 0 <= t < p && t != j implies #[trigger] l(t) == 0real by { assert(gc(t) == ej(t)); let z = qt(i, t); assert(z * 0real == 0real) by(nonlinear_arith); }
    sum_one(l, j, p);
    assert(gc(j) == 1real);
    assert(l(j) == q(j, i)) by { let z = q(j, i); assert(z * 1real == z) by(nonlinear_arith); }
    assert(mv(qt, gc, p)(i) == q(j, i)) by { sum_ext(l, |t: int| qt(i, t) * gc(t), p); }
    // q^T g = 1
    let qg = mm(qt, g, p);
    assert forall|t: int| 0 <= t < p implies #[trigger] qg(i, t) == idm(i, t) by {
      assert(mm(g, q, p)(t, i) == idm(t, i));
      let a = |s: int| qt(i, s) * g(s, t);
      let b = |s: int| g(t, s) * q(s, i);
      assert forall|s: int| 0 <= s < p implies #[trigger] a(s) == b(s) by { assert(g(s, t) == g(t, s)); let (u, v) = (q(s, i), g(t, s)); assert(u * v == v * u) by(nonlinear_arith); }
      sum_ext(a, b, p);
    }
    mv_ext(qg, |a: int, b: int| idm(a, b), cj, cj, p, i);
    mv_id(cj, p, i);
  }
}
#[verifier::opaque] pub open spec fn pf(z: real, c: real, s: real) -> real { z + z * c * s }
#[verifier::opaque] pub open spec fn pt(k: real, xj: real, c: real, ui: real, s: real) -> real { k * xj + (c * xj) * (ui + k * s) }
// k x + (c x) t = x (k + c t)
pub proof fn fac(k: real, c: real, x: real, t: real) ensures k * x + (c * x) * t == x * (k + c * t) {
  assert((c * x) * t == x * (c * t)) by(nonlinear_arith);
  let q = c * t;
  assert(x * (k + q) == k * x + x * q) by(nonlinear_arith);
}
pub proof fn dist(a: real, b: real, c: real) ensures a * (b + c) == a * b + a * c { assert(a * (b + c) == a * b + a * c) by(nonlinear_arith); }
pub proof fn id1(z: real, ui: real, xj: real, c: real, s: real) ensures pt(-(z * ui), xj, c, ui, s) == xj * (ui * (c - pf(z, c, s)))
{
  reveal(pf); reveal(pt);
  let k = -(z * ui); let t = ui + k * s; let q = z * c * s;
  fac(k, c, xj, t);
  dist(c, ui, k * s);
  assert(c * ((-(z * ui)) * s) == -(ui * (z * c * s))) by(nonlinear_arith);
  assert(-(z * ui) + (c * ui - ui * q) == ui * (c - (z + q))) by(nonlinear_arith);
}
pub proof fn zero2(a: real, b: real, d: real) requires d == 0real ensures a * (b * d) == 0real { assert(b * 0real == 0real) by(nonlinear_arith); assert(a * 0real == 0real) by(nonlinear_arith); }
pub proof fn nl1(z: real, ui: real, xj: real, c: real, s: real) requires pf(z, c, s) == c ensures pt(-(z * ui), xj, c, ui, s) == 0real
{ id1(z, ui, xj, c, s); zero2(xj, ui, c - pf(z, c, s)); }
pub proof fn id2(z: real, d: real, xi: real, xw: real, c: real, s: real) ensures pt(z * d, xi, c, xw, s) == xi * (d * pf(z, c, s) + c * xw)
{
  reveal(pf); reveal(pt);
  let k = z * d; let t = xw + k * s; let q = z * c * s;
  fac(k, c, xi, t);
  dist(c, xw, k * s);
  assert(c * ((z * d) * s) == d * (z * c * s)) by(nonlinear_arith);
  dist(d, z, q);
  assert(z * d == d * z) by(nonlinear_arith);
}
pub proof fn id3(c: real, xi: real, xw: real, y: real) ensures xi * ((y - xw) * c + c * xw) == c * (xi * y)
{ assert((y - xw) * c + c * xw == c * y) by(nonlinear_arith); assert(xi * (c * y) == c * (xi * y)) by(nonlinear_arith); }
pub proof fn nl2(z: real, d: real, xi: real, xw: real, y: real, c: real, s: real) requires pf(z, c, s) == c, d == y - xw ensures pt(z * d, xi, c, xw, s) == c * (xi * y)
{ id2(z, d, xi, xw, c, s); id3(c, xi, xw, y); }
pub proof fn zc(c: real, s: real, z: real) requires c != 0real, 1real / c + s != 0real, z == 1real / (1real / c + s) ensures pf(z, c, s) == c
{
  reveal(pf);
  let k = 1real / c; let d = k + s;
  assert(k * c == 1real) by(nonlinear_arith) requires k == 1real / c, c != 0real;
  assert(z * d == 1real) by(nonlinear_arith) requires z == 1real / d, d != 0real;
  assert(z * c * s == c - z) by(nonlinear_arith) requires z * d == 1real, d == k + s, k * c == 1real;
}
pub proof fn dot_scale(a: F1, b: F1, c: real, n: int) ensures sum(|t: int| a(t) * (c * b(t)), n) == c * dot(a, b, n)
{
  let g = |t: int| a(t) * b(t);
  let k = |t: int| c * g(t); let k2 = |t: int| a(t) * (c * b(t));
  assert forall|t: int| 0 <= t < n implies #[trigger] k(t) == k2(t) by { let (x, y) = (a(t), b(t)); assert(c * (x * y) == x * (c * y)) by(nonlinear_arith); }
  sum_scale(c, g, n); sum_ext(k, k2, n); sum_ext(|t: int| c * g(t), k, n);
}
pub proof fn dot_sym(a: F1, b: F1, n: int) ensures dot(a, b, n) == dot(b, a, n)
{
  let g = |t: int| a(t) * b(t); let h = |t: int| b(t) * a(t);
  assert forall|t: int| 0 <= t < n implies #[trigger] g(t) == h(t) by { let (x, y) = (a(t), b(t)); assert(x * y == y * x) by(nonlinear_arith); }
  sum_ext(g, h, n);
}
pub proof fn dot_lin(a: F1, b: F1, c: F1, k: real, n: int) ensures dot(a, |t: int| b(t) + k * c(t), n) == dot(a, b, n) + k * dot(a, c, n)
{
  let f = |t: int| a(t) * b(t); let g = |t: int| a(t) * (k * c(t));
  let h = |t: int| f(t) + g(t); let d = |t: int| b(t) + k * c(t); let h2 = |t: int| a(t) * d(t);
  assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == h2(t) by { let (x, y, z) = (a(t), b(t), k * c(t)); assert(x * y + x * z == x * (y + z)) by(nonlinear_arith); }
  sum_add(f, g, n); sum_ext(|t: int| f(t) + g(t), h, n); sum_ext(h, h2, n); dot_scale(a, c, k, n);
}
// G u = x when u = Q x
pub proof fn gu(q: F2, g: F2, x: F1, p: int) requires st(q, g, p) ensures forall|i: int| 0 <= i < p ==> #[trigger] mv(g, mv(q, x, p), p)(i) == x(i)
{
  rinv(q, g, p);
  assert forall|i: int| 0 <= i < p implies #[trigger] mv(g, mv(q, x, p), p)(i) == x(i) by {
    mv_assoc(g, q, x, p, p, i);
    let gq = mm(g, q, p);
    assert forall|t: int| 0 <= t < p implies #[trigger] gq(i, t) == idm(i, t) by { assert(mm(g, q, p)(i, t) == idm(i, t)); }
    mv_ext(gq, |a: int, b: int| idm(a, b), x, x, p, i);
    mv_id(x, p, i);
  }
}
// (G + c x x^T) v
pub proof fn upg_mv(g: F2, x: F1, c: real, v: F1, p: int, i: int) ensures mv(upg(g, x, c), v, p)(i) == mv(g, v, p)(i) + (c * x(i)) * dot(x, v, p)
{
  let k = c * x(i);
  let a = |t: int| v(t) * g(i, t); let b = |t: int| g(i, t) + k * x(t);
  let gi = |t: int| g(i, t);
  dot_lin(v, gi, x, k, p);
  let l = |t: int| upg(g, x, c)(i, t) * v(t);
  let r = |t: int| v(t) * b(t);
  assert forall|t: int| 0 <= t < p implies #[trigger] l(t) == r(t) by {
    let (h, xi, xt, w) = (g(i, t), x(i), x(t), v(t));
    assert((h + c * (xi * xt)) * w == w * (h + (c * xi) * xt)) by(nonlinear_arith);
  }
  sum_ext(l, r, p);
  sum_ext(r, |t: int| v(t) * (|t: int| gi(t) + k * x(t))(t), p);
  dot_sym(v, gi, p); dot_sym(v, x, p);
  sum_ext(|t: int| gi(t) * v(t), |t: int| g(i, t) * v(t), p);
}
// the update is possible when there is an inverse after it
pub proof fn wden_ok(q: F2, g: F2, x: F1, c: real, p: int) requires st(q, g, p), invertible(upg(g, x, c), p), c != 0real ensures wden(q, x, p, c) != 0real
{
  let u = mv(q, x, p); let s = dot(x, u, p);
  if wden(q, x, p, c) == 0real {
    let k = 1real / c;
    assert(1real + c * s == 0real) by(nonlinear_arith) requires k == 1real / c, k + s == 0real, c != 0real;
    gu(q, g, x, p);
    let g2 = upg(g, x, c);
    let q2 = choose|q2: F2| linv(q2, g2, p);
    let v = mv(g2, u, p);
    assert forall|i: int| 0 <= i < p implies #[trigger] v(i) == 0real by {
      upg_mv(g, x, c, u, p, i);
      assert(mv(g, mv(q, x, p), p)(i) == x(i));
      let xi = x(i);
      assert(xi + (c * xi) * s == xi * (1real + c * s)) by(nonlinear_arith);
      assert(xi * 0real == 0real) by(nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < p implies #[trigger] u(i) == 0real by {
      mv_assoc(q2, g2, u, p, p, i);
      let l = |t: int| q2(i, t) * v(t);
      assert forall|t: int| 0 <= t < p implies #[trigger] l(t) == 0real by { assert(v(t) == 0real); let z = q2(i, t); assert(z * 0real == 0real) by(nonlinear_arith); }
      sum_zero(l, p);
      sum_ext(l, |t: int| q2(i, t) * v(t), p);
      let qg = mm(q2, g2, p);
      assert forall|t: int| 0 <= t < p implies #[trigger] qg(i, t) == idm(i, t) by { assert(mm(q2, g2, p)(i, t) == idm(i, t)); }
      mv_ext(qg, |a: int, b: int| idm(a, b), u, u, p, i);
      mv_id(u, p, i);
    }
    let l = |t: int| x(t) * u(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] l(t) == 0real by { assert(u(t) == 0real); let z = x(t); assert(z * 0real == 0real) by(nonlinear_arith); }
    sum_zero(l, p); sum_ext(l, |t: int| x(t) * u(t), p);
    assert(c * 0real == 0real) by(nonlinear_arith);
  }
}
// Sherman-Morrison, for the inverse
pub proof fn wood_inv(q: F2, g: F2, x: F1, c: real, p: int, z: real, q2: F2)
  requires st(q, g, p), c != 0real, wden(q, x, p, c) != 0real, z == 1real / wden(q, x, p, c),
    forall|i: int, j: int| 0 <= i < p && 0 <= j < p ==> #[trigger] q2(i, j) == q(i, j) - z * (mv(q, x, p)(i) * mv(q, x, p)(j)),
  ensures st(q2, upg(g, x, c), p)
{
  let u = mv(q, x, p); let s = dot(x, u, p); let g2 = upg(g, x, c);
  zc(c, s, z);
  gu(q, g, x, p);
  assert(sym(g2, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g2(i, j) == g2(j, i) by { assert(g(i, j) == g(j, i)); let (a, e) = (x(i), x(j)); assert(a * e == e * a) by(nonlinear_arith); } }
  assert(sym(q2, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] q2(i, j) == q2(j, i) by { assert(q(i, j) == q(j, i)); assert(q2(j, i) == q(j, i) - z * (mv(q, x, p)(j) * mv(q, x, p)(i))); let (a, e) = (u(i), u(j)); assert(a * e == e * a) by(nonlinear_arith); } }
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] mm(q2, g2, p)(i, j) == idm(i, j) by {
    // row i of q2 against column j of g2; g2 is symmetric: (G2 q2_i)(j)
    let qi = |t: int| q(t, i); let r = |t: int| q2(t, i);
    let k = -(z * u(i));
    let r2 = |t: int| qi(t) + k * u(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] r(t) == r2(t) by {
      assert(q2(t, i) == q(t, i) - z * (mv(q, x, p)(t) * mv(q, x, p)(i)));
      let (a, e) = (u(t), u(i)); assert(-(z * (a * e)) == (-(z * e)) * a) by(nonlinear_arith);
    }
    let l = |t: int| q2(i, t) * g2(t, j); let l2 = |t: int| g2(j, t) * r(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] l(t) == l2(t) by { assert(q2(i, t) == q2(t, i)); assert(g2(t, j) == g2(j, t)); let (a, e) = (q2(t, i), g2(j, t)); assert(a * e == e * a) by(nonlinear_arith); }
    sum_ext(l, l2, p); sum_ext(l, |t: int| q2(i, t) * g2(t, j), p);
    sum_ext(l2, |t: int| g2(j, t) * r2(t), p);
    assert(mm(q2, g2, p)(i, j) == mv(g2, r2, p)(j));
    upg_mv(g, x, c, r2, p, j);
    let gj = |t: int| g(j, t);
    dot_lin(gj, qi, u, k, p); dot_lin(x, qi, u, k, p);
    sum_ext(|t: int| gj(t) * (|t: int| qi(t) + k * u(t))(t), |t: int| g(j, t) * r2(t), p);
    sum_ext(|t: int| x(t) * (|t: int| qi(t) + k * u(t))(t), |t: int| x(t) * r2(t), p);
    sum_ext(|t: int| gj(t) * u(t), |t: int| g(j, t) * u(t), p);
    rinv(q, g, p);
    assert(mm(g, q, p)(j, i) == idm(j, i));
    sum_ext(|t: int| gj(t) * qi(t), |t: int| g(j, t) * q(t, i), p);
    assert(mv(g, mv(q, x, p), p)(j) == x(j));
    // x . q_i = u_i
    let a1 = |t: int| x(t) * qi(t); let a2 = |t: int| q(i, t) * x(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] a1(t) == a2(t) by { assert(q(i, t) == q(t, i)); let (a, e) = (x(t), q(i, t)); assert(a * e == e * a) by(nonlinear_arith); }
    sum_ext(a1, a2, p); sum_ext(a1, |t: int| x(t) * qi(t), p); sum_ext(a2, |t: int| q(i, t) * x(t), p);
    let (ui, xj) = (u(i), x(j));
    assert(mm(q2, g2, p)(i, j) == (idm(j, i) + k * xj) + (c * xj) * (ui + k * s));
    reveal(pt); nl1(z, ui, xj, c, s);
  }
}
// and for the solution
pub proof fn wood_sol(q: F2, g: F2, w: F1, b: F1, x: F1, y: real, c: real, p: int, z: real, w2: F1)
  requires st(q, g, p), ne(g, w, b, p), c != 0real, wden(q, x, p, c) != 0real, z == 1real / wden(q, x, p, c),
    forall|i: int| 0 <= i < p ==> #[trigger] w2(i) == w(i) + z * (mv(q, x, p)(i) * (y - dot(x, w, p))),
  ensures ne(upg(g, x, c), w2, upb(b, x, y, c), p)
{
  let u = mv(q, x, p); let s = dot(x, u, p); let g2 = upg(g, x, c); let d = y - dot(x, w, p);
  zc(c, s, z);
  gu(q, g, x, p);
  assert forall|i: int| 0 <= i < p implies #[trigger] mv(g2, w2, p)(i) == upb(b, x, y, c)(i) by {
    let k = z * d;
    let w3 = |t: int| w(t) + k * u(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] w2(t) == w3(t) by { let e = u(t); assert(z * (e * d) == (z * d) * e) by(nonlinear_arith); }
    let l = |t: int| g2(i, t) * w2(t); let l2 = |t: int| g2(i, t) * w3(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] l(t) == l2(t) by { assert(w2(t) == w3(t)); }
    sum_ext(l, l2, p);
    upg_mv(g, x, c, w3, p, i);
    let gi = |t: int| g(i, t);
    dot_lin(gi, w, u, k, p); dot_lin(x, w, u, k, p);
    sum_ext(|t: int| gi(t) * (|t: int| w(t) + k * u(t))(t), |t: int| g(i, t) * w3(t), p);
    sum_ext(|t: int| x(t) * (|t: int| w(t) + k * u(t))(t), |t: int| x(t) * w3(t), p);
    sum_ext(|t: int| gi(t) * w(t), |t: int| g(i, t) * w(t), p);
    sum_ext(|t: int| gi(t) * u(t), |t: int| g(i, t) * u(t), p);
    assert(mv(g, w, p)(i) == b(i));
    assert(mv(g, mv(q, x, p), p)(i) == x(i));
    let (xi, xw) = (x(i), dot(x, w, p));
    assert(mv(g2, w2, p)(i) == (b(i) + k * xi) + (c * xi) * (xw + k * s));
    reveal(pt); nl2(z, d, xi, xw, y, c, s);
  }
}

// ---------------------------------------------------------------- normal equations over rows
pub open spec fn rsum(f: F1, a: int, b: int) -> real decreases b - a { if b <= a { 0real } else { rsum(f, a, b - 1) + f(b - 1) } }
pub type G1 = spec_fn(int) -> bool;
pub open spec fn pen(l: real, n1: int, i: int, j: int) -> real { if i == j && i < n1 && l > 0real { l } else { 0real } }
pub open spec fn gterm(x: F2, ok: G1, i: int, j: int) -> F1 { |t: int| if ok(t) { x(t, i) * x(t, j) } else { 0real } }
pub open spec fn bterm(x: F2, y: F2, ok: G1, i: int) -> F1 { |t: int| if ok(t) { x(t, i) * y(t, 0) } else { 0real } }
// X^T X + penalty, and X^T y, over the rows a..b that are ok
pub open spec fn gram(x: F2, ok: G1, a: int, b: int, l: real, n1: int) -> F2 { |i: int, j: int| rsum(gterm(x, ok, i, j), a, b) + pen(l, n1, i, j) }
pub open spec fn mom(x: F2, y: F2, ok: G1, a: int, b: int) -> F1 { |i: int| rsum(bterm(x, y, ok, i), a, b) }
pub open spec fn all() -> G1 { |t: int| true }
pub open spec fn pcols(c: int, bias: bool) -> int { if bias { if c >= 1 { c - 1 } else { 1 - c } } else { c } }
// w solves the (ridge) normal equations of those rows, the last column unpenalised if it is the intercept
pub open spec fn solves(x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool, w: F1) -> bool { ne(gram(x, ok, a, b, l, pcols(p, bias)), w, mom(x, y, ok, a, b), p) }
pub open spec fn known(q: F2, x: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool) -> bool { st(q, gram(x, ok, a, b, l, pcols(p, bias)), p) }
pub open spec fn regular(x: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool) -> bool { invertible(gram(x, ok, a, b, l, pcols(p, bias)), p) }
pub open spec fn okrow(x: Mx, y: Mx) -> G1 { |t: int| !(exists|j: int| 0 <= j < x.c && #[trigger] (x.bad)(t, j)) && !(exists|j: int| 0 <= j < y.c && #[trigger] (y.bad)(t, j)) }

pub proof fn rsum_ext(f: F1, g: F1, a: int, b: int) requires forall|t: int| a <= t < b ==> #[trigger] f(t) == g(t) ensures rsum(f, a, b) == rsum(g, a, b) decreases b - a { if b > a { rsum_ext(f, g, a, b - 1); } }
pub proof fn rsum_0(f: F1, n: int) ensures rsum(f, 0, n) == sum(f, n) decreases n { if n > 0 { rsum_0(f, n - 1); } }
pub proof fn rsum_first(f: F1, a: int, b: int) requires a < b ensures rsum(f, a, b) == f(a) + rsum(f, a + 1, b) decreases b - a
{ if b == a + 1 { assert(rsum(f, a, a) == 0real); assert(rsum(f, a + 1, b) == 0real); } else { rsum_first(f, a, b - 1); } }
pub open spec fn feq(a: F2, b: F2, p: int) -> bool { forall|i: int, j: int| 0 <= i < p && 0 <= j < p ==> #[trigger] a(i, j) == b(i, j) }
pub proof fn linv_ext(q: F2, g: F2, h: F2, p: int) requires linv(q, g, p), feq(h, g, p) ensures linv(q, h, p)
{
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] mm(q, h, p)(i, j) == idm(i, j) by {
    assert(mm(q, g, p)(i, j) == idm(i, j));
    let a = |t: int| q(i, t) * h(t, j); let b = |t: int| q(i, t) * g(t, j);
    assert forall|t: int| 0 <= t < p implies #[trigger] a(t) == b(t) by { assert(h(t, j) == g(t, j)); }
    sum_ext(a, b, p);
  }
}
pub proof fn inv_ext(g: F2, h: F2, p: int) requires invertible(g, p), feq(h, g, p) ensures invertible(h, p)
{ let q = choose|q: F2| linv(q, g, p); linv_ext(q, g, h, p); }
pub proof fn ne_ext(g: F2, h: F2, w: F1, b: F1, d: F1, p: int) requires ne(g, w, b, p), feq(h, g, p), forall|i: int| 0 <= i < p ==> #[trigger] d(i) == b(i) ensures ne(h, w, d, p)
{
  assert forall|i: int| 0 <= i < p implies #[trigger] mv(h, w, p)(i) == d(i) by {
    assert(mv(g, w, p)(i) == b(i));
    let a = |t: int| h(i, t) * w(t); let e = |t: int| g(i, t) * w(t);
    assert forall|t: int| 0 <= t < p implies #[trigger] a(t) == e(t) by { assert(h(i, t) == g(i, t)); }
    sum_ext(a, e, p); sum_ext(a, |t: int| h(i, t) * w(t), p); sum_ext(e, |t: int| g(i, t) * w(t), p);
  }
}
pub proof fn st_ext(q: F2, g: F2, h: F2, p: int) requires st(q, g, p), feq(h, g, p) ensures st(q, h, p)
{ linv_ext(q, g, h, p); assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] h(i, j) == h(j, i) by { assert(h(j, i) == g(j, i)); assert(g(i, j) == g(j, i)); } }
pub proof fn gram_sym(x: F2, ok: G1, a: int, b: int, l: real, n1: int, p: int) ensures sym(gram(x, ok, a, b, l, n1), p)
{
  let g = gram(x, ok, a, b, l, n1);
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g(i, j) == g(j, i) by {
    let f = gterm(x, ok, i, j); let h = gterm(x, ok, j, i);
    assert forall|t: int| a <= t < b implies #[trigger] f(t) == h(t) by { let (u, v) = (x(t, i), x(t, j)); assert(u * v == v * u) by(nonlinear_arith); }
    rsum_ext(f, h, a, b);
  }
}
// one more row at the end
pub proof fn add_row(x: F2, y: F2, ok: G1, a: int, b: int, l: real, n1: int, p: int) requires a <= b
  ensures
    ok(b) ==> feq(gram(x, ok, a, b + 1, l, n1), upg(gram(x, ok, a, b, l, n1), |j: int| x(b, j), 1real), p) && (forall|i: int| 0 <= i < p ==> #[trigger] mom(x, y, ok, a, b + 1)(i) == upb(mom(x, y, ok, a, b), |j: int| x(b, j), y(b, 0), 1real)(i)),
    !ok(b) ==> feq(gram(x, ok, a, b + 1, l, n1), gram(x, ok, a, b, l, n1), p) && (forall|i: int| 0 <= i < p ==> #[trigger] mom(x, y, ok, a, b + 1)(i) == mom(x, y, ok, a, b)(i)),
{
  assert forall|i: int, j: int| true implies #[trigger] gram(x, ok, a, b + 1, l, n1)(i, j) == gram(x, ok, a, b, l, n1)(i, j) + gterm(x, ok, i, j)(b) by { assert(b + 1 - 1 == b); }
  assert forall|i: int| true implies #[trigger] mom(x, y, ok, a, b + 1)(i) == mom(x, y, ok, a, b)(i) + bterm(x, y, ok, i)(b) by { assert(b + 1 - 1 == b); }
}
// the first row removed
pub proof fn drop_row(x: F2, y: F2, ok: G1, a: int, b: int, l: real, n1: int, p: int) requires a < b
  ensures
    ok(a) ==> feq(gram(x, ok, a + 1, b, l, n1), upg(gram(x, ok, a, b, l, n1), |j: int| x(a, j), -1real), p) && (forall|i: int| 0 <= i < p ==> #[trigger] mom(x, y, ok, a + 1, b)(i) == upb(mom(x, y, ok, a, b), |j: int| x(a, j), y(a, 0), -1real)(i)),
    !ok(a) ==> feq(gram(x, ok, a + 1, b, l, n1), gram(x, ok, a, b, l, n1), p) && (forall|i: int| 0 <= i < p ==> #[trigger] mom(x, y, ok, a + 1, b)(i) == mom(x, y, ok, a, b)(i)),
{
  assert forall|i: int, j: int| true implies #[trigger] gram(x, ok, a, b, l, n1)(i, j) == gterm(x, ok, i, j)(a) + gram(x, ok, a + 1, b, l, n1)(i, j) by { rsum_first(gterm(x, ok, i, j), a, b); }
  assert forall|i: int| true implies #[trigger] mom(x, y, ok, a, b)(i) == bterm(x, y, ok, i)(a) + mom(x, y, ok, a + 1, b)(i) by { rsum_first(bterm(x, y, ok, i), a, b); }
}
// ---------------------------------------------------------------- the functions
//@struct path=OnlineLR file=linalg/lr_online_solvers.rs
//@fn path=has_nan file=linalg/lr_online_solvers.rs opts=col ret=r
//@spec
ensures r == (exists|i: int, j: int| 0 <= i < mat@.r && 0 <= j < mat@.c && #[trigger] (mat@.bad)(i, j))
//@loop 0
invariant __n0 == mat@.c, __s1@.len() == mat@.c, __i0 <= __n0,
  forall|j: int| 0 <= j < mat@.c ==> (#[trigger] __s1@[j])@.len() == mat@.r && (forall|i: int| 0 <= i < mat@.r ==> (#[trigger] __s1@[j]@[i])@ == (mat@.e)(i, j) && nanp(__s1@[j]@[i]) == (mat@.bad)(i, j)),
  __acc0 == (exists|i: int, j: int| 0 <= i < mat@.r && 0 <= j < __i0 && #[trigger] (mat@.bad)(i, j)),
decreases __n0 - __i0
//@loop 1
invariant __n1 == mat@.r, __s2@ == col@, __i1 <= __n1, col@.len() == mat@.r, 0 <= __p0 < mat@.c,
  forall|i: int| 0 <= i < mat@.r ==> #[trigger] nanp(col@[i]) == (mat@.bad)(i, __p0 as int),
  __acc1 == (exists|i: int| 0 <= i < __i1 && #[trigger] (mat@.bad)(i, __p0 as int)),
decreases __n1 - __i1
//@end
//@fn path=woodbury_step file=linalg/lr_online_solvers.rs opts=*inverse,*weights
//@sig pub fn woodbury_step(inverse: &mut Matrix<R>, weights: &mut Matrix<R>, new_x: Matrix<R>, new_y: Matrix<R>, c: R)
//@spec
requires old(inverse)@.r == old(inverse)@.c, old(weights)@.r == old(inverse)@.r, old(weights)@.c == 1, new_x@.r == 1, new_x@.c == old(inverse)@.c, new_y@.r == 1, new_y@.c == 1,
  c@ != 0real, wden(old(inverse)@.e, row(new_x@.e), old(inverse)@.r, c@) != 0real,
ensures final(inverse)@.r == old(inverse)@.r, final(inverse)@.c == old(inverse)@.c, final(weights)@.r == old(weights)@.r, final(weights)@.c == 1,
  forall|g: F2, b: F1| #[trigger] st(old(inverse)@.e, g, old(inverse)@.r) && #[trigger] ne(g, col(old(weights)@.e), b, old(inverse)@.r) ==>
    st(final(inverse)@.e, upg(g, row(new_x@.e), c@), old(inverse)@.r) && ne(upg(g, row(new_x@.e), c@), col(final(weights)@.e), upb(b, row(new_x@.e), (new_y@.e)(0, 0), c@), old(inverse)@.r)
//@at fn.start
let ghost q0 = inverse@.e; let ghost w0 = weights@.e; let ghost p = inverse@.r; let ghost xr = row(new_x@.e); let ghost uu = mv(q0, xr, p);
//@at let.u.0
let ghost ue = u@.e;
proof {
  assert forall|i: int| 0 <= i < p implies #[trigger] ue(i, 0) == uu(i) by { sum_ext(|t: int| q0(i, t) * tr(new_x@.e)(t, 0), |t: int| q0(i, t) * xr(t), p); }
  let f = |t: int| (new_x@.e)(0, t) * ue(t, 0); let h = |t: int| xr(t) * uu(t);
  assert forall|t: int| 0 <= t < p implies #[trigger] f(t) == h(t) by { assert(ue(t, 0) == uu(t)); }
  sum_ext(f, h, p); sum_ext(f, |t: int| (new_x@.e)(0, t) * ue(t, 0), p); sum_ext(h, |t: int| xr(t) * uu(t), p);
  assert(mm(new_x@.e, ue, p)(0, 0) == dot(xr, uu, p));
}
//@at let.z.0
assert(z@ == 1real / wden(q0, xr, p, c@));
//@at call.faer::linalg::matmul::matmul.0
proof {
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] (inverse@.e)(i, j) == q0(i, j) - z@ * (uu(i) * uu(j)) by {
    let f = |t: int| ue(i, t) * tr(ue)(t, j);
    assert(sum(f, 1) == sum(f, 0) + f(0)); assert(sum(f, 0) == 0real);
    assert(mm(ue, tr(ue), 1)(i, j) == sum(f, 1)) by { sum_ext(f, |t: int| ue(i, t) * tr(ue)(t, j), 1); }
    assert(ue(i, 0) == uu(i)); assert(ue(j, 0) == uu(j));
    let v = uu(i) * uu(j); let zz = z@;
    assert((-zz) * v == -(zz * v)) by(nonlinear_arith);
  }
}
//@at let.y_diff.0
proof {
  let f = |t: int| (new_x@.e)(0, t) * w0(t, 0);
  sum_ext(f, |t: int| xr(t) * col(w0)(t), p); sum_ext(f, |t: int| (new_x@.e)(0, t) * w0(t, 0), p);
  assert((y_diff@.e)(0, 0) == (new_y@.e)(0, 0) - dot(xr, col(w0), p));
}
let ghost ye = y_diff@.e;
//@at call.faer::linalg::matmul::matmul.1
proof {
  let w2 = col(weights@.e);
  assert forall|i: int| 0 <= i < p implies #[trigger] w2(i) == col(w0)(i) + z@ * (uu(i) * ((new_y@.e)(0, 0) - dot(xr, col(w0), p))) by {
    let f = |t: int| ue(i, t) * ye(t, 0);
    assert(sum(f, 1) == sum(f, 0) + f(0)); assert(sum(f, 0) == 0real);
    sum_ext(f, |t: int| ue(i, t) * ye(t, 0), 1);
    assert(ue(i, 0) == uu(i));
  }
  assert forall|g: F2, b: F1| #[trigger] st(q0, g, p) && #[trigger] ne(g, col(w0), b, p) implies
    st(inverse@.e, upg(g, xr, c@), p) && ne(upg(g, xr, c@), col(weights@.e), upb(b, xr, (new_y@.e)(0, 0), c@), p) by {
    wood_inv(q0, g, xr, c@, p, z@, inverse@.e);
    wood_sol(q0, g, col(w0), b, xr, (new_y@.e)(0, 0), c@, p, z@, w2);
  }
}
//@end

// the least-squares system of whole matrices
pub open spec fn gsum(x: F2, n: int, l: real, n1: int) -> F2 { |i: int, j: int| sum(|t: int| x(t, i) * x(t, j), n) + pen(l, n1, i, j) }
pub proof fn gsum_gram(x: F2, y: F2, n: int, l: real, n1: int, p: int) requires n >= 0 ensures feq(gsum(x, n, l, n1), gram(x, all(), 0, n, l, n1), p), forall|i: int| 0 <= i < p ==> #[trigger] mom(x, y, all(), 0, n)(i) == sum(|t: int| x(t, i) * y(t, 0), n)
{
  let g = gsum(x, n, l, n1);
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g(i, j) == gram(x, all(), 0, n, l, n1)(i, j) by {
    rsum_0(gterm(x, all(), i, j), n); sum_ext(gterm(x, all(), i, j), |t: int| x(t, i) * x(t, j), n);
  }
  assert forall|i: int| 0 <= i < p implies #[trigger] mom(x, y, all(), 0, n)(i) == sum(|t: int| x(t, i) * y(t, 0), n) by {
    rsum_0(bterm(x, y, all(), i), n); sum_ext(bterm(x, y, all(), i), |t: int| x(t, i) * y(t, 0), n);
  }
}
//@fn path=faer_qr_lstsq_with_inv file=linalg/lr_online_solvers.rs ret=r
//@spec
requires x@.r == y@.r, y@.c == 1, x@.c >= 1 || !has_bias
ensures r.0@.r == x@.c, r.0@.c == x@.c || !regular(x@.e, all(), 0, x@.r, lambda@, x@.c, has_bias), r.1@.r == x@.c, r.1@.c == 1,
  regular(x@.e, all(), 0, x@.r, lambda@, x@.c, has_bias) ==> known(r.0@.e, x@.e, all(), 0, x@.r, lambda@, x@.c, has_bias) && solves(x@.e, y@.e, all(), 0, x@.r, lambda@, x@.c, has_bias, col(r.1@.e))
//@at let.xtx.0
let ghost g0 = xtx@.e; let ghost n = x@.r; let ghost p = x@.c;
proof { mx_dims(x); }
//@loop 0
invariant __n0 == n1, __i0 <= __n0, n1 <= p, n1 == pcols(p, has_bias), xtx@.r == p, xtx@.c == p, lambda@ > 0real,
  xtx@.e == (|i: int, j: int| if i == j && 0 <= i < __i0 { g0(i, j) + lambda@ } else { g0(i, j) }),
decreases __n0 - __i0
//@at loop0.pre
assert(xtx@.e =~= (|i: int, j: int| if i == j && 0 <= i < 0 { g0(i, j) + lambda@ } else { g0(i, j) }));
//@at loop0.end
assert(xtx@.e =~= (|i: int, j: int| if i == j && 0 <= i < __i0 { g0(i, j) + lambda@ } else { g0(i, j) }));
//@at let.qr.0
let ghost gg = xtx@.e; let ghost gs = gram(x@.e, all(), 0, n, lambda@, pcols(p, has_bias));
proof {
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] gg(i, j) == gs(i, j) by {
    gsum_gram(x@.e, y@.e, n, lambda@, pcols(p, has_bias), p);
    assert(gsum(x@.e, n, lambda@, pcols(p, has_bias))(i, j) == gs(i, j));
    sum_ext(|t: int| tr(x@.e)(i, t) * (x@.e)(t, j), |t: int| (x@.e)(t, i) * (x@.e)(t, j), n);
  }
  gram_sym(x@.e, all(), 0, n, lambda@, pcols(p, has_bias), p);
  assert(sym(gg, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] gg(i, j) == gg(j, i) by { assert(gs(i, j) == gs(j, i)); assert(gg(j, i) == gs(j, i)); } }
  if invertible(gs, p) { inv_ext(gs, gg, p); }
}
//@at let.weights.0
proof {
  if invertible(gs, p) {
    inv_sym(inv@.e, gg, p);
    assert(st(inv@.e, gg, p));
    assert(feq(gs, gg, p));
    st_ext(inv@.e, gg, gs, p);
    let b = col(mm(tr(x@.e), y@.e, n));
    let w = col(weights@.e);
    assert(ne(gg, w, b, p)) by {
      assert forall|i: int| 0 <= i < p implies #[trigger] mv(gg, w, p)(i) == b(i) by {
        assert(mm(gg, weights@.e, p)(i, 0) == mm(tr(x@.e), y@.e, n)(i, 0));
        sum_ext(|t: int| gg(i, t) * w(t), |t: int| gg(i, t) * (weights@.e)(t, 0), p);
      }
    }
    let m = mom(x@.e, y@.e, all(), 0, n);
    assert forall|i: int| 0 <= i < p implies #[trigger] m(i) == b(i) by {
      gsum_gram(x@.e, y@.e, n, lambda@, pcols(p, has_bias), p);
      assert(mom(x@.e, y@.e, all(), 0, n)(i) == m(i));
      sum_ext(|t: int| tr(x@.e)(i, t) * (y@.e)(t, 0), |t: int| (x@.e)(t, i) * (y@.e)(t, 0), n);
    }
    ne_ext(gg, gs, w, b, m, p);
  }
}
//@end
impl OnlineLR {
//@fn path=OnlineLR::new file=linalg/lr_online_solvers.rs ret=r
//@spec
ensures r.lambda == lambda, r.has_bias == has_bias, r.coefficients@.r == 0, r.coefficients@.c == 0, r.inv@.r == 0, r.inv@.c == 0
//@end
//@fn path=OnlineLR::fitted_values file=linalg/lr_online_solvers.rs ret=r
//@spec
ensures r == self.coefficients
//@end
//@fn path=OnlineLR::has_bias file=linalg/lr_online_solvers.rs ret=r
//@spec
ensures r == self.has_bias
//@end
}

// the row an update adds: with a 1 for the intercept
pub open spec fn xrow(x: Mx, bias: bool) -> F1 { |j: int| if bias && j >= x.c { 1real } else { (x.e)(0, j) } }
pub open spec fn pdim(x: Mx, bias: bool) -> int { x.c + if bias { 1int } else { 0int } }
impl OnlineLR {
  pub open spec fn dims(&self, p: int) -> bool { self.inv@.r == p && self.inv@.c == p && self.coefficients@.r == p && self.coefficients@.c == 1 }
  // after: the system with one more (c = 1) or one less (c = -1) row
  pub open spec fn stepped(&self, o: OnlineLR, x: F1, y: real, c: real, p: int) -> bool {
    &&& self.lambda == o.lambda && self.has_bias == o.has_bias && self.dims(p)
    &&& forall|g: F2, b: F1| #[trigger] st(o.inv@.e, g, p) && #[trigger] ne(g, col(o.coefficients@.e), b, p) ==> st(self.inv@.e, upg(g, x, c), p) && ne(upg(g, x, c), col(self.coefficients@.e), upb(b, x, y, c), p)
  }
//@fn path=OnlineLR::fit_with_ones file=linalg/lr_online_solvers.rs
//@spec
requires x@.r == y@.r, y@.c == 1, x@.c >= 1
ensures final(self).lambda == old(self).lambda, final(self).has_bias == old(self).has_bias,
  regular(x@.e, all(), 0, x@.r, old(self).lambda@, x@.c, has_bias) ==> final(self).dims(x@.c) && known(final(self).inv@.e, x@.e, all(), 0, x@.r, old(self).lambda@, x@.c, has_bias) && solves(x@.e, y@.e, all(), 0, x@.r, old(self).lambda@, x@.c, has_bias, col(final(self).coefficients@.e))
//@end
//@fn path=OnlineLR::update_unchecked file=linalg/lr_online_solvers.rs
//@spec
requires new_x@.r == 1, new_y@.r == 1, new_y@.c == 1, old(self).dims(pdim(new_x@, old(self).has_bias)), c@ != 0real,
  wden(old(self).inv@.e, xrow(new_x@, old(self).has_bias), pdim(new_x@, old(self).has_bias), c@) != 0real,
ensures final(self).stepped(*old(self), xrow(new_x@, old(self).has_bias), (new_y@.e)(0, 0), c@, pdim(new_x@, old(self).has_bias))
//@at before.woodbury_step.0
assert(row(new_new_x@.e) =~= xrow(new_x@, true));
//@at fn.start
proof { if !old(self).has_bias { assert(row(new_x@.e) =~= xrow(new_x@, false)); } }
//@end
//@fn path=OnlineLR::update file=linalg/lr_online_solvers.rs
//@spec
requires new_x@.r == 1, new_y@.r == 1, new_y@.c == 1, old(self).dims(pdim(new_x@, old(self).has_bias)), c@ != 0real,
  okrow(new_x@, new_y@)(0) ==> wden(old(self).inv@.e, xrow(new_x@, old(self).has_bias), pdim(new_x@, old(self).has_bias), c@) != 0real,
ensures
  okrow(new_x@, new_y@)(0) ==> final(self).stepped(*old(self), xrow(new_x@, old(self).has_bias), (new_y@.e)(0, 0), c@, pdim(new_x@, old(self).has_bias)),
  !okrow(new_x@, new_y@)(0) ==> *final(self) == *old(self)
//@end
}

// ---------------------------------------------------------------- windows of rows
// the state is that of the rows a..b
pub open spec fn fitat(o: OnlineLR, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool) -> bool {
  o.dims(p) && known(o.inv@.e, x, ok, a, b, l, p, bias) && solves(x, y, ok, a, b, l, p, bias, col(o.coefficients@.e))
}
pub open spec fn rw(x: F2, t: int) -> F1 { |j: int| x(t, j) }
pub proof fn grow_ok(q: F2, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool)
  requires a <= b, ok(b), known(q, x, ok, a, b, l, p, bias), regular(x, ok, a, b + 1, l, p, bias) ensures wden(q, rw(x, b), p, 1real) != 0real
{ let n1 = pcols(p, bias); add_row(x, y, ok, a, b, l, n1, p); let g2 = upg(gram(x, ok, a, b, l, n1), rw(x, b), 1real);
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g2(i, j) == gram(x, ok, a, b + 1, l, n1)(i, j) by { let h = upg(gram(x, ok, a, b, l, n1), |j: int| x(b, j), 1real); assert(gram(x, ok, a, b + 1, l, n1)(i, j) == h(i, j)); }
  inv_ext(gram(x, ok, a, b + 1, l, n1), g2, p); wden_ok(q, gram(x, ok, a, b, l, n1), rw(x, b), 1real, p); }
pub proof fn shrink_ok(q: F2, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool)
  requires a < b, ok(a), known(q, x, ok, a, b, l, p, bias), regular(x, ok, a + 1, b, l, p, bias) ensures wden(q, rw(x, a), p, -1real) != 0real
{ let n1 = pcols(p, bias); drop_row(x, y, ok, a, b, l, n1, p); let g2 = upg(gram(x, ok, a, b, l, n1), rw(x, a), -1real);
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g2(i, j) == gram(x, ok, a + 1, b, l, n1)(i, j) by { let h = upg(gram(x, ok, a, b, l, n1), |j: int| x(a, j), -1real); assert(gram(x, ok, a + 1, b, l, n1)(i, j) == h(i, j)); }
  inv_ext(gram(x, ok, a + 1, b, l, n1), g2, p); wden_ok(q, gram(x, ok, a, b, l, n1), rw(x, a), -1real, p); }
pub proof fn grow(o: OnlineLR, o2: OnlineLR, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool)
  requires a <= b, fitat(o, x, y, ok, a, b, l, p, bias),
    ok(b) ==> o2.stepped(o, rw(x, b), y(b, 0), 1real, p), !ok(b) ==> o2 == o,
  ensures fitat(o2, x, y, ok, a, b + 1, l, p, bias)
{
  let n1 = pcols(p, bias); let g = gram(x, ok, a, b, l, n1); let m = mom(x, y, ok, a, b);
  let h = gram(x, ok, a, b + 1, l, n1); let m2 = mom(x, y, ok, a, b + 1);
  add_row(x, y, ok, a, b, l, n1, p);
  let (g2, b2) = if ok(b) { (upg(g, rw(x, b), 1real), upb(m, rw(x, b), y(b, 0), 1real)) } else { (g, m) };
  assert(st(o2.inv@.e, g2, p) && ne(g2, col(o2.coefficients@.e), b2, p)) by { assert(st(o.inv@.e, g, p) && ne(g, col(o.coefficients@.e), m, p)); }
  assert(feq(h, g2, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] h(i, j) == g2(i, j) by { if ok(b) { let k = upg(g, |j: int| x(b, j), 1real); assert(gram(x, ok, a, b + 1, l, n1)(i, j) == k(i, j)); } else { assert(gram(x, ok, a, b + 1, l, n1)(i, j) == g(i, j)); } } }
  assert forall|i: int| 0 <= i < p implies #[trigger] m2(i) == b2(i) by { assert(mom(x, y, ok, a, b + 1)(i) == m2(i)); }
  st_ext(o2.inv@.e, g2, h, p); ne_ext(g2, h, col(o2.coefficients@.e), b2, m2, p);
}
pub proof fn shrink(o: OnlineLR, o2: OnlineLR, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool)
  requires a < b, fitat(o, x, y, ok, a, b, l, p, bias),
    ok(a) ==> o2.stepped(o, rw(x, a), y(a, 0), -1real, p), !ok(a) ==> o2 == o,
  ensures fitat(o2, x, y, ok, a + 1, b, l, p, bias)
{
  let n1 = pcols(p, bias); let g = gram(x, ok, a, b, l, n1); let m = mom(x, y, ok, a, b);
  let h = gram(x, ok, a + 1, b, l, n1); let m2 = mom(x, y, ok, a + 1, b);
  drop_row(x, y, ok, a, b, l, n1, p);
  let (g2, b2) = if ok(a) { (upg(g, rw(x, a), -1real), upb(m, rw(x, a), y(a, 0), -1real)) } else { (g, m) };
  assert(st(o2.inv@.e, g2, p) && ne(g2, col(o2.coefficients@.e), b2, p)) by { assert(st(o.inv@.e, g, p) && ne(g, col(o.coefficients@.e), m, p)); }
  assert(feq(h, g2, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] h(i, j) == g2(i, j) by { if ok(a) { let k = upg(g, |j: int| x(a, j), -1real); assert(gram(x, ok, a + 1, b, l, n1)(i, j) == k(i, j)); } else { assert(gram(x, ok, a + 1, b, l, n1)(i, j) == g(i, j)); } } }
  assert forall|i: int| 0 <= i < p implies #[trigger] m2(i) == b2(i) by { assert(mom(x, y, ok, a + 1, b)(i) == m2(i)); }
  st_ext(o2.inv@.e, g2, h, p); ne_ext(g2, h, col(o2.coefficients@.e), b2, m2, p);
}
// the system of a block of rows
pub proof fn rsum_shift(f: F1, g: F1, a: int, n: int) requires forall|t: int| 0 <= t < n ==> #[trigger] f(t) == g(a + t) ensures rsum(f, 0, n) == rsum(g, a, a + n) decreases n { if n > 0 { rsum_shift(f, g, a, n - 1); assert(a + n - 1 == a + (n - 1)); assert(f(n - 1) == g(a + (n - 1))); } }
pub proof fn rows_shift(x0: F2, y0: F2, x: F2, y: F2, ok: G1, a: int, n: int, l: real, n1: int, p: int)
  requires forall|t: int, i: int| #[trigger] x0(t, i) == x(a + t, i), forall|t: int| #[trigger] y0(t, 0) == y(a + t, 0), forall|t: int| a <= t < a + n ==> #[trigger] ok(t),
  ensures feq(gram(x0, all(), 0, n, l, n1), gram(x, ok, a, a + n, l, n1), p), forall|i: int| 0 <= i < p ==> #[trigger] mom(x0, y0, all(), 0, n)(i) == mom(x, y, ok, a, a + n)(i)
{
  assert forall|i: int, j: int| true implies #[trigger] gram(x0, all(), 0, n, l, n1)(i, j) == gram(x, ok, a, a + n, l, n1)(i, j) by {
    let (f, g) = (gterm(x0, all(), i, j), gterm(x, ok, i, j));
    assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(a + t) by { assert(ok(a + t)); assert(x0(t, i) == x(a + t, i)); assert(x0(t, j) == x(a + t, j)); }
    rsum_shift(f, g, a, n);
  }
  assert forall|i: int| true implies #[trigger] mom(x0, y0, all(), 0, n)(i) == mom(x, y, ok, a, a + n)(i) by {
    let (f, g) = (bterm(x0, y0, all(), i), bterm(x, y, ok, i));
    assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(a + t) by { assert(ok(a + t)); assert(x0(t, i) == x(a + t, i)); assert(y0(t, 0) == y(a + t, 0)); }
    rsum_shift(f, g, a, n);
  }
}
// a fit to matrices with the system of the rows a..b is a fit to those rows
pub proof fn fit_as(o: OnlineLR, x0: F2, y0: F2, n: int, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool)
  requires feq(gram(x0, all(), 0, n, l, pcols(p, bias)), gram(x, ok, a, b, l, pcols(p, bias)), p), forall|i: int| 0 <= i < p ==> #[trigger] mom(x0, y0, all(), 0, n)(i) == mom(x, y, ok, a, b)(i),
    o.dims(p), known(o.inv@.e, x0, all(), 0, n, l, p, bias), solves(x0, y0, all(), 0, n, l, p, bias, col(o.coefficients@.e)),
  ensures fitat(o, x, y, ok, a, b, l, p, bias)
{
  let g0 = gram(x0, all(), 0, n, l, pcols(p, bias)); let g = gram(x, ok, a, b, l, pcols(p, bias)); let m0 = mom(x0, y0, all(), 0, n); let m = mom(x, y, ok, a, b);
  assert(feq(g, g0, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g(i, j) == g0(i, j) by { assert(g0(i, j) == g(i, j)); } }
  assert forall|i: int| 0 <= i < p implies #[trigger] m(i) == m0(i) by { assert(mom(x0, y0, all(), 0, n)(i) == m(i)); }
  st_ext(o.inv@.e, g0, g, p); ne_ext(g0, g, col(o.coefficients@.e), m0, m, p);
}
pub open spec fn badr(b: B2, t: int, c: int) -> bool { exists|j: int| 0 <= j < c && #[trigger] b(t, j) }
// row j of x and y, as matrices
pub open spec fn isrow(r: Mx, x: Mx, j: int) -> bool { r.r == 1 && r.c == x.c && r.e == (|t: int, i: int| (x.e)(j + t, 0 + i)) && r.bad == (|t: int, i: int| (x.bad)(j + t, 0 + i)) }
pub proof fn row_ok(rx: Mx, ry: Mx, x: Mx, y: Mx, j: int) requires isrow(rx, x, j), isrow(ry, y, j)
  ensures okrow(rx, ry)(0) == okrow(x, y)(j), xrow(rx, false) =~= rw(x.e, j), y.c == 1 ==> (ry.e)(0, 0) == (y.e)(j, 0)
{
  assert forall|c: int| true implies #[trigger] (rx.bad)(0, c) == (x.bad)(j, c) by {}
  assert forall|c: int| true implies #[trigger] (ry.bad)(0, c) == (y.bad)(j, c) by {}
  assert(badr(rx.bad, 0, x.c) == badr(x.bad, j, x.c)) by { if badr(x.bad, j, x.c) { let c = choose|c: int| 0 <= c < x.c && #[trigger] (x.bad)(j, c); assert((rx.bad)(0, c)); } if badr(rx.bad, 0, x.c) { let c = choose|c: int| 0 <= c < x.c && #[trigger] (rx.bad)(0, c); assert((x.bad)(j, c)); } }
  assert(badr(ry.bad, 0, y.c) == badr(y.bad, j, y.c)) by { if badr(y.bad, j, y.c) { let c = choose|c: int| 0 <= c < y.c && #[trigger] (y.bad)(j, c); assert((ry.bad)(0, c)); } if badr(ry.bad, 0, y.c) { let c = choose|c: int| 0 <= c < y.c && #[trigger] (ry.bad)(0, c); assert((y.bad)(j, c)); } }
  assert(okrow(rx, ry)(0) == !(badr(rx.bad, 0, rx.c) || badr(ry.bad, 0, ry.c)));
  assert(okrow(x, y)(j) == !(badr(x.bad, j, x.c) || badr(y.bad, j, y.c)));
}
// every prefix / window (and a window with the row after it) has a solution
pub open spec fn nwin(xn: int, n: int) -> int { if xn < n { 0 } else { xn - n + 1 } }
pub open spec fn grown_ok(x: F2, ok: G1, n: int, xn: int, l: real, p: int, bias: bool) -> bool { forall|b: int| n <= b <= xn ==> #[trigger] regular(x, ok, 0, b, l, p, bias) }
pub open spec fn windows_ok(x: F2, ok: G1, n: int, xn: int, l: real, p: int, bias: bool) -> bool { forall|a: int, b: int| 0 <= a && b <= xn && n <= b - a <= n + 1 ==> #[trigger] regular(x, ok, a, b, l, p, bias) }
//@fn path=faer_recursive_lstsq file=linalg/lr_online_solvers.rs ret=r
//@spec
requires x@.r == y@.r, y@.c == 1, x@.c >= 1, 1 <= n, x@.r < usize::MAX,
  n <= x@.r ==> forall|t: int| 0 <= t < n ==> #[trigger] okrow(x@, y@)(t),
  grown_ok(x@.e, okrow(x@, y@), n as int, x@.r, lambda@, x@.c, has_bias),
ensures r@.len() == nwin(x@.r, n as int),
  forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@.r == x@.c && r@[k]@.c == 1 && solves(x@.e, y@.e, okrow(x@, y@), 0, n + k, lambda@, x@.c, has_bias, col(r@[k]@.e))
//@at fn.start
let ghost ok = okrow(x@, y@); let ghost p = x@.c; let ghost l = lambda@;
//@at call.fit_with_ones.0
proof {
  rows_shift(x0@.e, y0@.e, x@.e, y@.e, ok, 0, n as int, l, pcols(p, has_bias), p);
  assert(regular(x@.e, ok, 0, n as int, l, p, has_bias));
  let g0 = gram(x0@.e, all(), 0, n as int, l, pcols(p, has_bias));
  inv_ext(gram(x@.e, ok, 0, n as int, l, pcols(p, has_bias)), g0, p);
  fit_as(online_lr, x0@.e, y0@.e, n as int, x@.e, y@.e, ok, 0, n as int, l, p, has_bias);
}
//@loop 0
invariant xn == x@.r, x@.r == y@.r, y@.c == 1, x@.c == p, p >= 1, 1 <= n <= xn, xn < usize::MAX, ok == okrow(x@, y@), l == lambda@,
  __n0 == xn - n, __i0 <= __n0, !online_lr.has_bias,
  grown_ok(x@.e, ok, n as int, xn as int, l, p, has_bias),
  fitat(online_lr, x@.e, y@.e, ok, 0, n + __i0, l, p, has_bias),
  coefficients@.len() == __i0 + 1,
  forall|k: int| 0 <= k < coefficients@.len() ==> (#[trigger] coefficients@[k])@.r == p && coefficients@[k]@.c == 1 && solves(x@.e, y@.e, ok, 0, n + k, l, p, has_bias, col(coefficients@[k]@.e)),
decreases __n0 - __i0
//@at before.update.0
let ghost o1 = online_lr; let ghost jj = j as int;
proof {
  row_ok(next_x@, next_y@, x@, y@, jj);
  if ok(jj) { assert(regular(x@.e, ok, 0, jj + 1, l, p, has_bias)); grow_ok(o1.inv@.e, x@.e, y@.e, ok, 0, jj, l, p, has_bias); }
}
//@at call.update.0
proof { grow(o1, online_lr, x@.e, y@.e, ok, 0, jj, l, p, has_bias); }
//@end
//@fn path=faer_rolling_lstsq file=linalg/lr_online_solvers.rs ret=r
//@spec
requires x@.r == y@.r, y@.c == 1, x@.c >= 1, 1 <= n, x@.r < usize::MAX,
  n <= x@.r ==> forall|t: int| 0 <= t < n ==> #[trigger] okrow(x@, y@)(t),
  windows_ok(x@.e, okrow(x@, y@), n as int, x@.r, lambda@, x@.c, has_bias),
ensures r@.len() == nwin(x@.r, n as int),
  forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@.r == x@.c && r@[k]@.c == 1 && solves(x@.e, y@.e, okrow(x@, y@), k, k + n, lambda@, x@.c, has_bias, col(r@[k]@.e))
//@at fn.start
let ghost ok = okrow(x@, y@); let ghost p = x@.c; let ghost l = lambda@;
//@at call.fit_with_ones.0
proof {
  rows_shift(x0@.e, y0@.e, x@.e, y@.e, ok, 0, n as int, l, pcols(p, has_bias), p);
  assert(regular(x@.e, ok, 0, n as int, l, p, has_bias));
  let g0 = gram(x0@.e, all(), 0, n as int, l, pcols(p, has_bias));
  inv_ext(gram(x@.e, ok, 0, n as int, l, pcols(p, has_bias)), g0, p);
  fit_as(online_lr, x0@.e, y0@.e, n as int, x@.e, y@.e, ok, 0, n as int, l, p, has_bias);
}
//@loop 0
invariant xn == x@.r, x@.r == y@.r, y@.c == 1, x@.c == p, p >= 1, 1 <= n <= xn, xn < usize::MAX, ok == okrow(x@, y@), l == lambda@,
  __n0 == xn - n, __i0 <= __n0, !online_lr.has_bias,
  windows_ok(x@.e, ok, n as int, xn as int, l, p, has_bias),
  fitat(online_lr, x@.e, y@.e, ok, __i0 as int, n + __i0, l, p, has_bias),
  coefficients@.len() == __i0 + 1,
  forall|k: int| 0 <= k < coefficients@.len() ==> (#[trigger] coefficients@[k])@.r == p && coefficients@[k]@.c == 1 && solves(x@.e, y@.e, ok, k, k + n, l, p, has_bias, col(coefficients@[k]@.e)),
decreases __n0 - __i0
//@at before.update.0
let ghost o1 = online_lr; let ghost jj = j as int; let ghost aa = j - n;
proof {
  row_ok(next_x@, next_y@, x@, y@, jj);
  if ok(jj) { assert(regular(x@.e, ok, aa, jj + 1, l, p, has_bias)); grow_ok(o1.inv@.e, x@.e, y@.e, ok, aa, jj, l, p, has_bias); }
}
//@at call.update.0
proof { grow(o1, online_lr, x@.e, y@.e, ok, aa, jj, l, p, has_bias); }
let ghost o2 = online_lr;
//@at before.update.1
proof {
  row_ok(remove_x@, remove_y@, x@, y@, aa);
  if ok(aa) { assert(regular(x@.e, ok, aa + 1, jj + 1, l, p, has_bias)); shrink_ok(o2.inv@.e, x@.e, y@.e, ok, aa, jj + 1, l, p, has_bias); }
}
//@at call.update.1
proof { shrink(o2, online_lr, x@.e, y@.e, ok, aa, jj + 1, l, p, has_bias); }
//@end

// ---------------------------------------------------------------- rows without nulls, gathered
pub open spec fn cnt(ok: G1, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { cnt(ok, a, b - 1) + if ok(b - 1) { 1int } else { 0int } } }
pub proof fn cnt_bound(ok: G1, a: int, b: int) ensures 0 <= cnt(ok, a, b), a <= b ==> cnt(ok, a, b) <= b - a decreases b - a { if b > a { cnt_bound(ok, a, b - 1); } }
pub proof fn cnt_first(ok: G1, a: int, b: int) requires a < b ensures cnt(ok, a, b) == cnt(ok, a + 1, b) + if ok(a) { 1int } else { 0int } decreases b - a
{ if b == a + 1 { assert(cnt(ok, a, a) == 0); assert(cnt(ok, a + 1, b) == 0); } else { cnt_first(ok, a, b - 1); } }
// the rows of x and of y that are ok, in order
pub open spec fn picked(xs: Seq<R>, ys: Seq<R>, x: F2, y: F2, ok: G1, a: int, b: int, p: int) -> bool decreases b - a
{
  if b <= a { xs.len() == 0 && ys.len() == 0 }
  else if !ok(b - 1) { picked(xs, ys, x, y, ok, a, b - 1, p) }
  else { ys.len() > 0 && xs.len() >= p && picked(xs.take(xs.len() - p), ys.take(ys.len() - 1), x, y, ok, a, b - 1, p) && (forall|i: int| 0 <= i < p ==> (#[trigger] xs[xs.len() - p + i])@ == x(b - 1, i)) && ys[ys.len() - 1]@ == y(b - 1, 0) }
}
pub proof fn pick_ok(xs: Seq<R>, ys: Seq<R>, rx: Seq<R>, ry: Seq<R>, x: F2, y: F2, ok: G1, a: int, b: int, p: int)
  requires picked(xs, ys, x, y, ok, a, b, p), a <= b, ok(b), rx.len() == p, ry.len() == 1, p >= 0, forall|i: int| 0 <= i < p ==> (#[trigger] rx[i])@ == x(b, i), ry[0]@ == y(b, 0),
  ensures picked(xs + rx, ys + ry, x, y, ok, a, b + 1, p)
{
  let (u, v) = (xs + rx, ys + ry);
  assert(b + 1 - 1 == b);
  assert(u.take(u.len() - p) =~= xs); assert(v.take(v.len() - 1) =~= ys);
  assert forall|i: int| 0 <= i < p implies (#[trigger] u[u.len() - p + i])@ == x(b, i) by { assert(u[u.len() - p + i] == rx[i]); }
}
pub open spec fn rme(xs: Seq<R>, p: int) -> F2 { |t: int, i: int| xs[t * p + i]@ }
pub open spec fn cme(ys: Seq<R>, n: int) -> F2 { |t: int, i: int| ys[t + i * n]@ }
pub proof fn picked_len(xs: Seq<R>, ys: Seq<R>, x: F2, y: F2, ok: G1, a: int, b: int, p: int) requires picked(xs, ys, x, y, ok, a, b, p), p >= 0
  ensures ys.len() == cnt(ok, a, b), xs.len() == ys.len() * p decreases b - a
{
  if b > a { if ok(b - 1) { picked_len(xs.take(xs.len() - p), ys.take(ys.len() - 1), x, y, ok, a, b - 1, p);
      let k = ys.len() as int; assert(k * p == (k - 1) * p + p) by(nonlinear_arith); }
    else { picked_len(xs, ys, x, y, ok, a, b - 1, p); } }
}
pub proof fn row_idx(t: int, k: int, i: int, p: int) requires 0 <= t < k, 0 <= i < p ensures 0 <= t * p + i < k * p
{ assert(t * p >= 0) by(nonlinear_arith) requires t >= 0, p >= 0; assert((t + 1) * p <= k * p) by(nonlinear_arith) requires t + 1 <= k, p >= 0; assert((t + 1) * p == t * p + p) by(nonlinear_arith); }
pub proof fn picked_sum(xs: Seq<R>, ys: Seq<R>, nn: int, x: F2, y: F2, ok: G1, a: int, b: int, p: int, i: int, j: int)
  requires picked(xs, ys, x, y, ok, a, b, p), 0 <= i < p, 0 <= j < p,
  ensures rsum(gterm(rme(xs, p), all(), i, j), 0, ys.len() as int) == rsum(gterm(x, ok, i, j), a, b),
    rsum(bterm(rme(xs, p), cme(ys, nn), all(), i), 0, ys.len() as int) == rsum(bterm(x, y, ok, i), a, b),
  decreases b - a
{
  picked_len(xs, ys, x, y, ok, a, b, p);
  if b > a {
    if ok(b - 1) {
      let (xs1, ys1) = (xs.take(xs.len() - p), ys.take(ys.len() - 1));
      picked_sum(xs1, ys1, nn, x, y, ok, a, b - 1, p, i, j);
      picked_len(xs1, ys1, x, y, ok, a, b - 1, p);
      let k = ys1.len() as int;
      let (f, f1) = (gterm(rme(xs, p), all(), i, j), gterm(rme(xs1, p), all(), i, j));
      let (g, g1) = (bterm(rme(xs, p), cme(ys, nn), all(), i), bterm(rme(xs1, p), cme(ys1, nn), all(), i));
      assert(0 * nn == 0) by(nonlinear_arith);
      assert forall|t: int| 0 <= t < k implies #[trigger] f(t) == f1(t) by { row_idx(t, k, i, p); row_idx(t, k, j, p); }
      assert forall|t: int| 0 <= t < k implies #[trigger] g(t) == g1(t) by { row_idx(t, k, i, p); }
      rsum_ext(f, f1, 0, k); rsum_ext(g, g1, 0, k);
      assert(xs.len() - p == k * p);
      assert(xs[xs.len() - p + i]@ == x(b - 1, i)); assert(xs[xs.len() - p + j]@ == x(b - 1, j));
      assert(f(k) == gterm(x, ok, i, j)(b - 1));
      assert(g(k) == bterm(x, y, ok, i)(b - 1));
    } else { picked_sum(xs, ys, nn, x, y, ok, a, b - 1, p, i, j); }
  }
}
pub proof fn picked_fit(xs: Seq<R>, ys: Seq<R>, x: F2, y: F2, ok: G1, a: int, b: int, l: real, n1: int, p: int)
  requires picked(xs, ys, x, y, ok, a, b, p), p >= 0
  ensures feq(gram(rme(xs, p), all(), 0, ys.len() as int, l, n1), gram(x, ok, a, b, l, n1), p), feq(gram(x, ok, a, b, l, n1), gram(rme(xs, p), all(), 0, ys.len() as int, l, n1), p),
    forall|i: int| 0 <= i < p ==> #[trigger] mom(rme(xs, p), cme(ys, ys.len() as int), all(), 0, ys.len() as int)(i) == mom(x, y, ok, a, b)(i)
{
  let k = ys.len() as int;
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] gram(rme(xs, p), all(), 0, k, l, n1)(i, j) == gram(x, ok, a, b, l, n1)(i, j) by { picked_sum(xs, ys, k, x, y, ok, a, b, p, i, j); }
  let (g, h) = (gram(x, ok, a, b, l, n1), gram(rme(xs, p), all(), 0, k, l, n1));
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g(i, j) == h(i, j) by { assert(gram(rme(xs, p), all(), 0, k, l, n1)(i, j) == gram(x, ok, a, b, l, n1)(i, j)); }
  assert forall|i: int| 0 <= i < p implies #[trigger] mom(rme(xs, p), cme(ys, k), all(), 0, k)(i) == mom(x, y, ok, a, b)(i) by { picked_sum(xs, ys, k, x, y, ok, a, b, p, i, i); }
}
// fitting the gathered rows
pub proof fn pick_fit(o: OnlineLR, xs: Seq<R>, ys: Seq<R>, x0: F2, y0: F2, x: F2, y: F2, ok: G1, a: int, b: int, l: real, p: int, bias: bool)
  requires picked(xs, ys, x, y, ok, a, b, p), p >= 0, x0 == rme(xs, p), y0 == cme(ys, ys.len() as int), regular(x, ok, a, b, l, p, bias),
    regular(x0, all(), 0, ys.len() as int, l, p, bias) ==> o.dims(p) && known(o.inv@.e, x0, all(), 0, ys.len() as int, l, p, bias) && solves(x0, y0, all(), 0, ys.len() as int, l, p, bias, col(o.coefficients@.e)),
  ensures fitat(o, x, y, ok, a, b, l, p, bias)
{
  picked_fit(xs, ys, x, y, ok, a, b, l, pcols(p, bias), p);
  inv_ext(gram(x, ok, a, b, l, pcols(p, bias)), gram(x0, all(), 0, ys.len() as int, l, pcols(p, bias)), p);
  fit_as(o, x0, y0, ys.len() as int, x, y, ok, a, b, l, p, bias);
}
// windows with at least m rows have a solution, also with the row after them when the next window has as many
pub open spec fn enough_ok(x: F2, ok: G1, n: int, m: int, xn: int, l: real, p: int, bias: bool) -> bool {
  &&& forall|a: int, b: int| 0 <= a && b <= xn && b - a == n && cnt(ok, a, b) >= m ==> #[trigger] regular(x, ok, a, b, l, p, bias)
  &&& forall|a: int, b: int| 0 <= a && b <= xn && b - a == n + 1 && cnt(ok, a, b - 1) >= m && cnt(ok, a + 1, b) >= m ==> #[trigger] regular(x, ok, a, b, l, p, bias)
}
pub open spec fn wcoef(c: Matrix<R>, x: F2, y: F2, ok: G1, k: int, n: int, m: int, l: real, p: int, bias: bool) -> bool {
  if cnt(ok, k, k + n) >= m { c@.r == p && c@.c == 1 && solves(x, y, ok, k, k + n, l, p, bias, col(c@.e)) } else { c@.r == 0 && c@.c == 0 }
}
//@fn path=faer_rolling_skipping_lstsq file=linalg/lr_online_solvers.rs opts=x_i,y_i ret=r
//@spec
requires x@.r == y@.r, y@.c == 1, x@.c >= 1, 1 <= m <= n, x@.r < usize::MAX, n * x@.c <= usize::MAX,
  enough_ok(x@.e, okrow(x@, y@), n as int, m as int, x@.r, lambda@, x@.c, has_bias),
ensures r@.len() == nwin(x@.r, n as int),
  forall|k: int| 0 <= k < r@.len() ==> wcoef(#[trigger] r@[k], x@.e, y@.e, okrow(x@, y@), k, n as int, m as int, lambda@, x@.c, has_bias)
//@at fn.start
let ghost ok = okrow(x@, y@); let ghost p = x@.c; let ghost l = lambda@;
//@letty non_null_cnt_in_window usize
//@letty left usize
//@loop 0
invariant_except_break
  coefficients@.len() == left,
invariant xn == x@.r, ncols == x@.c, x@.r == y@.r, y@.c == 1, x@.c == p, p >= 1, 1 <= m <= n <= xn, xn < usize::MAX, n * p <= usize::MAX, ok == okrow(x@, y@), l == lambda@,
  right == left + n, right <= xn + 1, !online_lr.has_bias, online_lr.lambda == lambda,
  enough_ok(x@.e, ok, n as int, m as int, xn as int, l, p, has_bias),
  forall|k: int| 0 <= k < coefficients@.len() ==> wcoef(#[trigger] coefficients@[k], x@.e, y@.e, ok, k, n as int, m as int, l, p, has_bias),
ensures right > xn && coefficients@.len() == left || right <= xn && coefficients@.len() == left + 1 && non_null_cnt_in_window == cnt(ok, left as int, right as int) && non_null_cnt_in_window >= m && fitat(online_lr, x@.e, y@.e, ok, left as int, right as int, l, p, has_bias),
decreases xn + 1 - right
//@loop 1
invariant x@.r == y@.r, y@.c == 1, x@.c == p, p >= 1, n <= xn, right == left + n, right <= xn, xn == x@.r, xn < usize::MAX, ok == okrow(x@, y@),
  __n1 == n, __i1 <= __n1, non_null_cnt_in_window == cnt(ok, left as int, left + __i1), non_null_cnt_in_window <= __i1,
  picked(x_slice@, y_slice@, x@.e, y@.e, ok, left as int, left + __i1, p),
decreases __n1 - __i1
//@loop 2
invariant __n2 == p, __s1@.len() == p, __i2 <= __n2, x@.c == p, forall|j: int| 0 <= j < p ==> #[trigger] nanp(__s1@[j]) == (x@.bad)(i as int, j),
  __acc2 == badr(x@.bad, i as int, __i2 as int),
decreases __n2 - __i2
//@at loop2.start
let ghost px = x@.bad; let ghost pi = i as int;
//@at loop2.end
proof { assert(px(pi, __p2 as int) == nanp(__s1@[__p2 as int])); }
//@loop 3
invariant __n3 == 1, __s2@.len() == 1, __i3 <= __n3, y@.c == 1, forall|j: int| 0 <= j < 1 ==> #[trigger] nanp(__s2@[j]) == (y@.bad)(i as int, j),
  __acc3 == badr(y@.bad, i as int, __i3 as int),
decreases __n3 - __i3
//@at loop3.start
let ghost py = y@.bad; let ghost pi = i as int;
//@at loop3.end
proof { assert(py(pi, __p3 as int) == nanp(__s2@[__p3 as int])); }
//@at let.y_i.0
proof { assert(ok(i as int) == !(badr(x@.bad, i as int, p) || badr(y@.bad, i as int, 1))); }
let ghost (xs0, ys0) = (x_slice@, y_slice@); let ghost ii = i as int;
//@at call.vx_extend.1
proof {
  let rx = x_slice@.subrange(xs0.len() as int, x_slice@.len() as int); let ry = y_slice@.subrange(ys0.len() as int, y_slice@.len() as int);
  assert(xs0 + rx =~= x_slice@); assert(ys0 + ry =~= y_slice@);
  pick_ok(xs0, ys0, rx, ry, x@.e, y@.e, ok, left as int, ii, p);
}
//@at loop1.post
proof { picked_len(x_slice@, y_slice@, x@.e, y@.e, ok, left as int, right as int, p); }
//@at call.fit_with_ones.0
proof {
  assert(x0@.e =~= rme(x_slice@, p)); assert(y0@.e =~= cme(y_slice@, y_slice@.len() as int));
  assert(regular(x@.e, ok, left as int, right as int, l, p, has_bias));
  pick_fit(online_lr, x_slice@, y_slice@, x0@.e, y0@.e, x@.e, y@.e, ok, left as int, right as int, l, p, has_bias);
}
//@loop 4
invariant xn == x@.r, ncols == x@.c, x@.r == y@.r, y@.c == 1, x@.c == p, p >= 1, 1 <= m <= n <= xn, xn < usize::MAX, n * p <= usize::MAX, ok == okrow(x@, y@), l == lambda@,
  right == left + n, right <= xn, !online_lr.has_bias, online_lr.lambda == lambda, __n4 == xn - right, __i4 <= __n4,
  enough_ok(x@.e, ok, n as int, m as int, xn as int, l, p, has_bias),
  coefficients@.len() == left + 1 + __i4,
  forall|k: int| 0 <= k < coefficients@.len() ==> wcoef(#[trigger] coefficients@[k], x@.e, y@.e, ok, k, n as int, m as int, l, p, has_bias),
  non_null_cnt_in_window == cnt(ok, left + __i4, right + __i4),
  !refit ==> non_null_cnt_in_window >= m && fitat(online_lr, x@.e, y@.e, ok, left + __i4, right + __i4, l, p, has_bias),
decreases __n4 - __i4
//@at let.next_y.0
let ghost jj = j as int; let ghost aa = j - n; let ghost o1 = online_lr; let ghost mut o2 = online_lr;
proof {
  row_ok(next_x@, next_y@, x@, y@, jj); row_ok(remove_x@, remove_y@, x@, y@, aa);
  cnt_bound(ok, aa, jj); cnt_bound(ok, aa + 1, jj); cnt_first(ok, aa, jj); cnt_first(ok, aa, jj + 1); cnt_bound(ok, aa + 1, jj + 1);
  assert(cnt(ok, aa, jj + 1) == cnt(ok, aa, jj) + if ok(jj) { 1int } else { 0int }) by { assert(jj + 1 - 1 == jj); }
}
//@at set.non_null_cnt_in_window.2
proof { assert(non_null_cnt_in_window == cnt(ok, aa + 1, jj + 1)); }
//@loop 5
invariant x@.r == y@.r, y@.c == 1, x@.c == p, p >= 1, 1 <= n <= xn, j < xn, j >= n, xn == x@.r, xn < usize::MAX, ok == okrow(x@, y@),
  __a4 == j + 1 - n, __b3 == j + 1, __n5 == n, __i5 <= __n5,
  picked(x_slice@, y_slice@, x@.e, y@.e, ok, __a4 as int, __a4 + __i5, p),
decreases __n5 - __i5
//@at let.y_i.1
proof { row_ok(x_i@, y_i@, x@, y@, i as int); }
let ghost (xs0, ys0) = (x_slice@, y_slice@); let ghost ii = i as int;
//@at call.vx_extend.3
proof {
  let rx = x_slice@.subrange(xs0.len() as int, x_slice@.len() as int); let ry = y_slice@.subrange(ys0.len() as int, y_slice@.len() as int);
  assert(xs0 + rx =~= x_slice@); assert(ys0 + ry =~= y_slice@);
  pick_ok(xs0, ys0, rx, ry, x@.e, y@.e, ok, __a4 as int, ii, p);
}
//@at loop5.post
proof { picked_len(x_slice@, y_slice@, x@.e, y@.e, ok, aa + 1, jj + 1, p); }
//@at call.fit_with_ones.1
proof {
  assert(x0@.e =~= rme(x_slice@, p)); assert(y0@.e =~= cme(y_slice@, y_slice@.len() as int));
  assert(regular(x@.e, ok, aa + 1, jj + 1, l, p, has_bias));
  pick_fit(online_lr, x_slice@, y_slice@, x0@.e, y0@.e, x@.e, y@.e, ok, aa + 1, jj + 1, l, p, has_bias);
}
//@at before.update_unchecked.0
proof { assert(regular(x@.e, ok, aa, jj + 1, l, p, has_bias)); grow_ok(o1.inv@.e, x@.e, y@.e, ok, aa, jj, l, p, has_bias); }
//@at before.update_unchecked.1
proof { assert(ok(aa)); grow(o1, online_lr, x@.e, y@.e, ok, aa, jj, l, p, has_bias); o2 = online_lr;
  assert(regular(x@.e, ok, aa + 1, jj + 1, l, p, has_bias)); shrink_ok(o2.inv@.e, x@.e, y@.e, ok, aa, jj + 1, l, p, has_bias); }
//@at call.update_unchecked.1
proof { shrink(o2, online_lr, x@.e, y@.e, ok, aa, jj + 1, l, p, has_bias); }
//@at before.push.3
proof {
  if !fitat(online_lr, x@.e, y@.e, ok, aa + 1, jj + 1, l, p, has_bias) {
    assert(!ok(aa)); grow(o1, online_lr, x@.e, y@.e, ok, aa, jj, l, p, has_bias); shrink(online_lr, online_lr, x@.e, y@.e, ok, aa, jj + 1, l, p, has_bias);
  }
}
//@end

// ---------------------------------------------------------------- models
//@enum path=LinalgErrors file=linalg/mod.rs
//@enum path=LRSolverMethods file=linalg/mod.rs
//@struct path=LR file=linalg/lr_solvers.rs
//@struct path=ElasticNet file=linalg/lr_solvers.rs
impl OnlineLR {
  // fitted, or never fitted
  pub open spec fn shaped(&self) -> bool { self.coefficients@.r == 0 && self.coefficients@.c == 0 || self.coefficients@.c == 1 && (self.has_bias ==> self.coefficients@.r >= 1) }
  pub open spec fn fitted(&self) -> bool { !(self.coefficients@.r == 0 && self.coefficients@.c == 0) }
  pub open spec fn b0(&self) -> real { if self.has_bias && self.fitted() { (self.coefficients@.e)(self.coefficients@.r - 1, 0) } else { 0real } }
  pub open spec fn nw(&self) -> int { if self.has_bias && self.fitted() { self.coefficients@.r - 1 } else { self.coefficients@.r } }
//@fn path=LinearRegression::is_fit file=linalg/mod.rs id=OnlineLR_is_fit ret=r
//@spec
ensures r == self.fitted()
//@end
//@fn path=LinearRegression::bias file=linalg/mod.rs id=OnlineLR_bias ret=r
//@spec
requires self.shaped()
ensures r@ == self.b0()
//@end
//@fn path=LinearRegression::coefficients file=linalg/mod.rs id=OnlineLR_coefficients ret=r wrap_tail=1
//@spec
requires self.shaped()
ensures r@.r == self.nw(), r@.c == self.coefficients@.c, r@.e == self.coefficients@.e
//@at fn.end
assert(__ret@.e =~= self.coefficients@.e);
//@end
//@fn path=LinearRegression::check_is_fit file=linalg/mod.rs id=OnlineLR_check_is_fit ret=r
//@spec
ensures r is Ok == self.fitted(), r is Err ==> r->Err_0 is MatNotLearnedYet
//@end
//@fn path=LinearRegression::coeffs_as_vec file=linalg/mod.rs id=OnlineLR_coeffs_as_vec ret=r
//@letty __acc0 Vec<R>
//@spec
requires self.shaped()
ensures r is Ok == self.fitted(), r is Err ==> r->Err_0 is MatNotLearnedYet,
  r is Ok ==> r->Ok_0@.len() == self.nw() && forall|i: int| 0 <= i < self.nw() ==> (#[trigger] r->Ok_0@[i])@ == (self.coefficients@.e)(i, 0)
//@loop 0
invariant __n0 == __s1@.len(), __n0 == self.nw(), self.shaped(), __i0 <= __n0, __acc0@.len() == __i0, forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s1@[i])@ == (self.coefficients@.e)(i, 0), forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i])@ == (self.coefficients@.e)(i, 0),
decreases __n0 - __i0
//@end
//@fn path=LinearRegression::predict file=linalg/mod.rs id=OnlineLR_predict ret=r
//@spec
requires self.shaped()
ensures r is Ok == (X@.c == self.nw() && self.fitted()), 
  !self.fitted() && X@.c == 0 ==> r is Err && r->Err_0 is MatNotLearnedYet,
  r is Ok ==> r->Ok_0@.r == X@.r && r->Ok_0@.c == 1 && (forall|i: int| 0 <= i < X@.r ==> #[trigger] (r->Ok_0@.e)(i, 0) == mv(X@.e, col(self.coefficients@.e), self.nw())(i) + if rabs(self.b0()) > EPSV() { self.b0() } else { 0real })
//@at let.result.0
let ghost e0 = result@.e; let ghost w = self.nw();
proof { mx_dims(X); mx_dims(self.coefficients); epsv_pos();
  assert forall|i: int| true implies #[trigger] e0(i, 0) == mv(X@.e, col(self.coefficients@.e), w)(i) by {
    let c = self.coefficients@.e;
    sum_ext(|t: int| (X@.e)(i, t) * c(t, 0), |t: int| (X@.e)(i, t) * col(c)(t), w);
  }
}
//@loop 0
invariant __n0 == X@.r, __i0 <= __n0, result@.r == X@.r, result@.c == 1, forall|i: int| 0 <= i < X@.r ==> #[trigger] (result@.e)(i, 0) == e0(i, 0) + if i < __i0 { bias@ } else { 0real },
decreases __n0 - __i0
//@end
}
impl LR {
  // fitted, or never fitted
  pub open spec fn shaped(&self) -> bool { self.coefficients@.r == 0 && self.coefficients@.c == 0 || self.coefficients@.c == 1 && (self.has_bias ==> self.coefficients@.r >= 1) }
  pub open spec fn fitted(&self) -> bool { !(self.coefficients@.r == 0 && self.coefficients@.c == 0) }
  pub open spec fn b0(&self) -> real { if self.has_bias && self.fitted() { (self.coefficients@.e)(self.coefficients@.r - 1, 0) } else { 0real } }
  pub open spec fn nw(&self) -> int { if self.has_bias && self.fitted() { self.coefficients@.r - 1 } else { self.coefficients@.r } }
//@fn path=LR::fitted_values file=linalg/lr_solvers.rs id=LR_fitted_values ret=r
//@spec
ensures r == self.coefficients
//@end
//@fn path=LR::has_bias file=linalg/lr_solvers.rs id=LR_has_bias ret=r
//@spec
ensures r == self.has_bias
//@end
//@fn path=LinearRegression::is_fit file=linalg/mod.rs id=LR_is_fit ret=r
//@spec
ensures r == self.fitted()
//@end
//@fn path=LinearRegression::bias file=linalg/mod.rs id=LR_bias ret=r
//@spec
requires self.shaped()
ensures r@ == self.b0()
//@end
//@fn path=LinearRegression::coefficients file=linalg/mod.rs id=LR_coefficients ret=r wrap_tail=1
//@spec
requires self.shaped()
ensures r@.r == self.nw(), r@.c == self.coefficients@.c, r@.e == self.coefficients@.e
//@at fn.end
assert(__ret@.e =~= self.coefficients@.e);
//@end
//@fn path=LinearRegression::check_is_fit file=linalg/mod.rs id=LR_check_is_fit ret=r
//@spec
ensures r is Ok == self.fitted(), r is Err ==> r->Err_0 is MatNotLearnedYet
//@end
//@fn path=LinearRegression::coeffs_as_vec file=linalg/mod.rs id=LR_coeffs_as_vec ret=r
//@letty __acc0 Vec<R>
//@spec
requires self.shaped()
ensures r is Ok == self.fitted(), r is Err ==> r->Err_0 is MatNotLearnedYet,
  r is Ok ==> r->Ok_0@.len() == self.nw() && forall|i: int| 0 <= i < self.nw() ==> (#[trigger] r->Ok_0@[i])@ == (self.coefficients@.e)(i, 0)
//@loop 0
invariant __n0 == __s1@.len(), __n0 == self.nw(), self.shaped(), __i0 <= __n0, __acc0@.len() == __i0, forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s1@[i])@ == (self.coefficients@.e)(i, 0), forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i])@ == (self.coefficients@.e)(i, 0),
decreases __n0 - __i0
//@end
//@fn path=LinearRegression::predict file=linalg/mod.rs id=LR_predict ret=r
//@spec
requires self.shaped()
ensures r is Ok == (X@.c == self.nw() && self.fitted()), 
  !self.fitted() && X@.c == 0 ==> r is Err && r->Err_0 is MatNotLearnedYet,
  r is Ok ==> r->Ok_0@.r == X@.r && r->Ok_0@.c == 1 && (forall|i: int| 0 <= i < X@.r ==> #[trigger] (r->Ok_0@.e)(i, 0) == mv(X@.e, col(self.coefficients@.e), self.nw())(i) + if rabs(self.b0()) > EPSV() { self.b0() } else { 0real })
//@at let.result.0
let ghost e0 = result@.e; let ghost w = self.nw();
proof { mx_dims(X); mx_dims(self.coefficients); epsv_pos();
  assert forall|i: int| true implies #[trigger] e0(i, 0) == mv(X@.e, col(self.coefficients@.e), w)(i) by {
    let c = self.coefficients@.e;
    sum_ext(|t: int| (X@.e)(i, t) * c(t, 0), |t: int| (X@.e)(i, t) * col(c)(t), w);
  }
}
//@loop 0
invariant __n0 == X@.r, __i0 <= __n0, result@.r == X@.r, result@.c == 1, forall|i: int| 0 <= i < X@.r ==> #[trigger] (result@.e)(i, 0) == e0(i, 0) + if i < __i0 { bias@ } else { 0real },
decreases __n0 - __i0
//@end
}
impl ElasticNet {
  // fitted, or never fitted
  pub open spec fn shaped(&self) -> bool { self.coefficients@.r == 0 && self.coefficients@.c == 0 || self.coefficients@.c == 1 && (self.has_bias ==> self.coefficients@.r >= 1) }
  pub open spec fn fitted(&self) -> bool { !(self.coefficients@.r == 0 && self.coefficients@.c == 0) }
  pub open spec fn b0(&self) -> real { if self.has_bias && self.fitted() { (self.coefficients@.e)(self.coefficients@.r - 1, 0) } else { 0real } }
  pub open spec fn nw(&self) -> int { if self.has_bias && self.fitted() { self.coefficients@.r - 1 } else { self.coefficients@.r } }
//@fn path=ElasticNet::fitted_values file=linalg/lr_solvers.rs id=ElasticNet_fitted_values ret=r
//@spec
ensures r == self.coefficients
//@end
//@fn path=ElasticNet::has_bias file=linalg/lr_solvers.rs id=ElasticNet_has_bias ret=r
//@spec
ensures r == self.has_bias
//@end
//@fn path=LinearRegression::is_fit file=linalg/mod.rs id=ElasticNet_is_fit ret=r
//@spec
ensures r == self.fitted()
//@end
//@fn path=LinearRegression::bias file=linalg/mod.rs id=ElasticNet_bias ret=r
//@spec
requires self.shaped()
ensures r@ == self.b0()
//@end
//@fn path=LinearRegression::coefficients file=linalg/mod.rs id=ElasticNet_coefficients ret=r wrap_tail=1
//@spec
requires self.shaped()
ensures r@.r == self.nw(), r@.c == self.coefficients@.c, r@.e == self.coefficients@.e
//@at fn.end
assert(__ret@.e =~= self.coefficients@.e);
//@end
//@fn path=LinearRegression::check_is_fit file=linalg/mod.rs id=ElasticNet_check_is_fit ret=r
//@spec
ensures r is Ok == self.fitted(), r is Err ==> r->Err_0 is MatNotLearnedYet
//@end
//@fn path=LinearRegression::coeffs_as_vec file=linalg/mod.rs id=ElasticNet_coeffs_as_vec ret=r
//@letty __acc0 Vec<R>
//@spec
requires self.shaped()
ensures r is Ok == self.fitted(), r is Err ==> r->Err_0 is MatNotLearnedYet,
  r is Ok ==> r->Ok_0@.len() == self.nw() && forall|i: int| 0 <= i < self.nw() ==> (#[trigger] r->Ok_0@[i])@ == (self.coefficients@.e)(i, 0)
//@loop 0
invariant __n0 == __s1@.len(), __n0 == self.nw(), self.shaped(), __i0 <= __n0, __acc0@.len() == __i0, forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s1@[i])@ == (self.coefficients@.e)(i, 0), forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i])@ == (self.coefficients@.e)(i, 0),
decreases __n0 - __i0
//@end
//@fn path=LinearRegression::predict file=linalg/mod.rs id=ElasticNet_predict ret=r
//@spec
requires self.shaped()
ensures r is Ok == (X@.c == self.nw() && self.fitted()), 
  !self.fitted() && X@.c == 0 ==> r is Err && r->Err_0 is MatNotLearnedYet,
  r is Ok ==> r->Ok_0@.r == X@.r && r->Ok_0@.c == 1 && (forall|i: int| 0 <= i < X@.r ==> #[trigger] (r->Ok_0@.e)(i, 0) == mv(X@.e, col(self.coefficients@.e), self.nw())(i) + if rabs(self.b0()) > EPSV() { self.b0() } else { 0real })
//@at let.result.0
let ghost e0 = result@.e; let ghost w = self.nw();
proof { mx_dims(X); mx_dims(self.coefficients); epsv_pos();
  assert forall|i: int| true implies #[trigger] e0(i, 0) == mv(X@.e, col(self.coefficients@.e), w)(i) by {
    let c = self.coefficients@.e;
    sum_ext(|t: int| (X@.e)(i, t) * c(t, 0), |t: int| (X@.e)(i, t) * col(c)(t), w);
  }
}
//@loop 0
invariant __n0 == X@.r, __i0 <= __n0, result@.r == X@.r, result@.c == 1, forall|i: int| 0 <= i < X@.r ==> #[trigger] (result@.e)(i, 0) == e0(i, 0) + if i < __i0 { bias@ } else { 0real },
decreases __n0 - __i0
//@end
}

// x with a column of ones after its columns
pub open spec fn ones(x: F2, c: int) -> F2 { |i: int, j: int| if j < c { x(i, j) } else { 1real } }
pub open spec fn design(x: Mx, bias: bool) -> F2 { if bias { ones(x.e, x.c) } else { x.e } }
// from a solver's equations to the normal equations
pub proof fn from_solver(xe: F2, ye: F2, n: int, l: real, bias: bool, p: int, gg: F2, rhs: F2, w: F2)
  requires n >= 0, regular(xe, all(), 0, n, l, p, bias), gg == gramc(xe, n, l, pcols(p, bias), p), rhs == mm(tr(xe), ye, n),
    invertible(gg, p) ==> forall|i: int| 0 <= i < p ==> #[trigger] mm(gg, w, p)(i, 0) == rhs(i, 0),
  ensures solves(xe, ye, all(), 0, n, l, p, bias, col(w))
{
  let gs = gram(xe, all(), 0, n, l, pcols(p, bias));
  gramc_ext(xe, ye, n, l, pcols(p, bias), p);
  inv_ext(gs, gg, p);
  let b = col(rhs);
  assert forall|i: int| 0 <= i < p implies #[trigger] mv(gg, col(w), p)(i) == b(i) by {
    assert(mm(gg, w, p)(i, 0) == rhs(i, 0));
    sum_ext(|t: int| gg(i, t) * col(w)(t), |t: int| gg(i, t) * w(t, 0), p);
  }
  let m = mom(xe, ye, all(), 0, n);
  assert forall|i: int| 0 <= i < p implies #[trigger] m(i) == b(i) by {
    gsum_gram(xe, ye, n, l, pcols(p, bias), p);
    assert(mom(xe, ye, all(), 0, n)(i) == m(i));
    sum_ext(|t: int| tr(xe)(i, t) * ye(t, 0), |t: int| xe(t, i) * ye(t, 0), n);
  }
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] gs(i, j) == gg(i, j) by { assert(gg(i, j) == gs(i, j)); }
  ne_ext(gg, gs, col(w), b, m, p);
}
// the matrix that is built
pub open spec fn gramc(xe: F2, n: int, l: real, n1: int, p: int) -> F2 { |i: int, j: int| mm(tr(xe), xe, n)(i, j) + if i == j && 0 <= i < n1 && l > 0real { l } else { 0real } }
pub proof fn gramc_ext(xe: F2, ye: F2, n: int, l: real, n1: int, p: int) requires n >= 0 ensures feq(gramc(xe, n, l, n1, p), gram(xe, all(), 0, n, l, n1), p)
{
  let (g, h) = (gramc(xe, n, l, n1, p), gram(xe, all(), 0, n, l, n1));
  assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g(i, j) == h(i, j) by {
    gsum_gram(xe, ye, n, l, n1, p);
    assert(gsum(xe, n, l, n1)(i, j) == h(i, j));
    sum_ext(|t: int| tr(xe)(i, t) * xe(t, j), |t: int| xe(t, i) * xe(t, j), n);
  }
}
//@fn path=faer_solve_lstsq file=linalg/lr_solvers.rs ret=r wrap_tail=1
//@spec
requires x@.r == y@.r, y@.c >= 1, x@.c >= 1 || !has_bias
ensures r@.r == x@.c, r@.c == y@.c,
  regular(x@.e, all(), 0, x@.r, lambda@, x@.c, has_bias) ==> forall|k: int| 0 <= k < y@.c ==> #[trigger] solves(x@.e, ycol(y@.e, k), all(), 0, x@.r, lambda@, x@.c, has_bias, wcol(r@.e, k))
//@at let.xtx.0
let ghost g0 = xtx@.e; let ghost n = x@.r; let ghost p = x@.c;
proof { mx_dims(x); }
//@loop 0
invariant __n0 == n1, __i0 <= __n0, n1 <= p, n1 == pcols(p, has_bias), xtx@.r == p, xtx@.c == p, lambda@ >= 0real,
  xtx@.e == (|i: int, j: int| if i == j && 0 <= i < __i0 { g0(i, j) + lambda@ } else { g0(i, j) }),
decreases __n0 - __i0
//@at loop0.pre
assert(xtx@.e =~= (|i: int, j: int| if i == j && 0 <= i < 0 { g0(i, j) + lambda@ } else { g0(i, j) }));
//@at loop0.end
assert(xtx@.e =~= (|i: int, j: int| if i == j && 0 <= i < __i0 { g0(i, j) + lambda@ } else { g0(i, j) }));
//@at fn.end
proof {
  let gg = gramc(x@.e, n, lambda@, pcols(p, has_bias), p);
  assert(xtx@.e =~= gg);
  if regular(x@.e, all(), 0, x@.r, lambda@, x@.c, has_bias) {
    gramc_ext(x@.e, y@.e, n, lambda@, pcols(p, has_bias), p);
    inv_ext(gram(x@.e, all(), 0, n, lambda@, pcols(p, has_bias)), gg, p);
    assert forall|k: int| 0 <= k < y@.c implies #[trigger] solves(x@.e, ycol(y@.e, k), all(), 0, x@.r, lambda@, x@.c, has_bias, wcol(__ret@.e, k)) by {
      from_solver_k(x@.e, y@.e, n, lambda@, has_bias, p, k, __ret@.e);
    }
  }
}
//@end
// one of the targets
pub open spec fn ycol(y: F2, k: int) -> F2 { |i: int, j: int| y(i, k) }
pub open spec fn wcol(w: F2, k: int) -> F1 { |i: int| w(i, k) }
pub proof fn from_solver_k(xe: F2, ye: F2, n: int, l: real, bias: bool, p: int, k: int, w: F2)
  requires n >= 0, regular(xe, all(), 0, n, l, p, bias),
    forall|i: int| 0 <= i < p ==> #[trigger] mm(gramc(xe, n, l, pcols(p, bias), p), w, p)(i, k) == mm(tr(xe), ye, n)(i, k),
  ensures solves(xe, ycol(ye, k), all(), 0, n, l, p, bias, wcol(w, k))
{
  let w2 = |i: int, j: int| w(i, k); let y2 = ycol(ye, k);
  let gg = gramc(xe, n, l, pcols(p, bias), p); let rhs = mm(tr(xe), y2, n);
  assert forall|i: int| 0 <= i < p implies #[trigger] mm(gg, w2, p)(i, 0) == rhs(i, 0) by {
    assert(mm(gramc(xe, n, l, pcols(p, bias), p), w, p)(i, k) == mm(tr(xe), ye, n)(i, k));
    sum_ext(|t: int| gg(i, t) * w2(t, 0), |t: int| gg(i, t) * w(t, k), p);
    sum_ext(|t: int| tr(xe)(i, t) * y2(t, 0), |t: int| tr(xe)(i, t) * ye(t, k), n);
  }
  from_solver(xe, y2, n, l, bias, p, gg, rhs, w2);
  assert(col(w2) =~= wcol(w, k));
}

impl Copy for LRSolverMethods {}
impl Clone for LRSolverMethods { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl OnlineLR {
//@fn path=OnlineLR::fit_unchecked file=linalg/lr_online_solvers.rs id=OnlineLR_fit_unchecked
//@spec
requires X@.r == y@.r, y@.c == 1, X@.c >= 1, X@.c < usize::MAX
ensures final(self).lambda == old(self).lambda && final(self).has_bias == old(self).has_bias && (regular(design(X@, old(self).has_bias), all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias) ==>
    fitat(*final(self), design(X@, old(self).has_bias), y@.e, all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias))
//@at let.new_x.0
proof { assert(new_x@.e =~= design(X@, true)); }
//@end
//@fn path=OnlineLR::set_coeffs_bias_inverse file=linalg/lr_online_solvers.rs ret=r
//@spec
requires coeffs@.len() < usize::MAX
ensures ({ let hb = rabs(bias@) > EPSV(); let k = coeffs@.len() + if hb { 1int } else { 0int };
  &&& r is Err == (k != inv@.c)
  &&& r is Err ==> *final(self) == *old(self)
  &&& r is Ok ==> final(self).lambda == old(self).lambda && final(self).has_bias == hb && final(self).inv == inv && final(self).coefficients@.r == k && final(self).coefficients@.c == 1
  &&& r is Ok ==> (forall|i: int| 0 <= i < k ==> #[trigger] (final(self).coefficients@.e)(i, 0) == if i < coeffs@.len() { coeffs@[i]@ } else { bias@ }) })
//@closure 0
-> (o: R) ensures o == (if i < coeffs@.len() { coeffs@[i as int] } else { bias })
//@end
//@fn path=OnlineLR::get_inv file=linalg/lr_online_solvers.rs ret=r
//@spec
ensures r is Err == (self.inv@.r == 0 && self.inv@.c == 0), r is Ok ==> r->Ok_0 == self.inv, r is Err ==> r->Err_0 is MatNotLearnedYet
//@end
}
impl OnlineLR {
//@fn path=LinearRegression::fit file=linalg/mod.rs id=OnlineLR_fit ret=r
//@spec
requires y@.c == 1, X@.c >= 1, X@.c < usize::MAX
ensures r is Err == (X@.r != y@.r || X@.r == 0 || X@.r < X@.c), r is Err ==> *final(self) == *old(self),
  r is Ok ==> final(self).lambda == old(self).lambda && final(self).has_bias == old(self).has_bias && (regular(design(X@, old(self).has_bias), all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias) ==>
    fitat(*final(self), design(X@, old(self).has_bias), y@.e, all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias))
//@end
}

impl LR {
//@fn path=LR::fit_unchecked file=linalg/lr_solvers.rs id=LR_fit_unchecked wrap_tail=1
//@spec
requires X@.r == y@.r, y@.c == 1, X@.c >= 1, X@.c < usize::MAX
ensures final(self).lambda == old(self).lambda && final(self).has_bias == old(self).has_bias && final(self).solver == old(self).solver && final(self).coefficients@.r == pdim(X@, old(self).has_bias) && final(self).coefficients@.c == 1 &&
    (regular(design(X@, old(self).has_bias), all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias) ==> solves(design(X@, old(self).has_bias), y@.e, all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias, col(final(self).coefficients@.e)))
//@at let.new.0
proof { assert(new@.e =~= design(X@, true)); }
//@at fn.end
proof { mx_dims(X); if regular(design(X@, old(self).has_bias), all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias) {
  assert(solves(design(X@, old(self).has_bias), ycol(y@.e, 0), all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias, wcol(self.coefficients@.e, 0)));
  solves_y(design(X@, old(self).has_bias), ycol(y@.e, 0), y@.e, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias, wcol(self.coefficients@.e, 0));
  assert(col(self.coefficients@.e) =~= wcol(self.coefficients@.e, 0)); } }
//@end
}
pub proof fn solves_y(x: F2, y: F2, y2: F2, n: int, l: real, p: int, bias: bool, w: F1) requires n >= 0, solves(x, y, all(), 0, n, l, p, bias, w), forall|t: int| #[trigger] y(t, 0) == y2(t, 0) ensures solves(x, y2, all(), 0, n, l, p, bias, w)
{
  let g = gram(x, all(), 0, n, l, pcols(p, bias)); let b = mom(x, y, all(), 0, n); let b2 = mom(x, y2, all(), 0, n);
  assert forall|i: int| 0 <= i < p implies #[trigger] b2(i) == b(i) by {
    let (f, h) = (bterm(x, y2, all(), i), bterm(x, y, all(), i));
    assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == h(t) by { assert(y(t, 0) == y2(t, 0)); }
    rsum_ext(f, h, 0, n);
  }
  ne_ext(g, g, w, b, b2, p);
}
impl LR {
//@fn path=LinearRegression::fit file=linalg/mod.rs id=LR_fit ret=r
//@spec
requires y@.c == 1, X@.c >= 1, X@.c < usize::MAX
ensures r is Err == (X@.r != y@.r || X@.r == 0 || X@.r < X@.c), r is Err ==> *final(self) == *old(self),
  r is Ok ==> final(self).lambda == old(self).lambda && final(self).has_bias == old(self).has_bias && final(self).solver == old(self).solver && final(self).coefficients@.r == pdim(X@, old(self).has_bias) && final(self).coefficients@.c == 1 &&
    (regular(design(X@, old(self).has_bias), all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias) ==> solves(design(X@, old(self).has_bias), y@.e, all(), 0, X@.r, old(self).lambda@, pdim(X@, old(self).has_bias), old(self).has_bias, col(final(self).coefficients@.e)))
//@end
}

// ---------------------------------------------------------------- weighted least squares
pub open spec fn wgram(x: F2, w: F1, n: int) -> F2 { |i: int, j: int| sum(|t: int| (x(t, i) * w(t)) * x(t, j), n) }
pub open spec fn wmom(x: F2, y: F2, w: F1, n: int) -> F1 { |i: int| sum(|t: int| (x(t, i) * w(t)) * y(t, 0), n) }
//@fn path=faer_weighted_lstsq file=linalg/lr_solvers.rs ret=r wrap_tail=1
//@spec
requires x@.r == y@.r, y@.c == 1, w@.len() == x@.r
ensures r@.r == x@.c, r@.c == 1,
  invertible(wgram(x@.e, |t: int| w@[t]@, x@.r), x@.c) ==> ne(wgram(x@.e, |t: int| w@[t]@, x@.r), col(r@.e), wmom(x@.e, y@.e, |t: int| w@[t]@, x@.r), x@.c)
//@at fn.start
let ghost wv = |t: int| w@[t]@; let ghost n = x@.r; let ghost p = x@.c;
//@at fn.end
proof {
  let g = wgram(x@.e, wv, n);
  assert(feq(xtwx@.e, g, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] (xtwx@.e)(i, j) == g(i, j) by {
    let f = |t: int| (xtw@.e)(i, t) * (x@.e)(t, j); let h = |t: int| ((x@.e)(t, i) * wv(t)) * (x@.e)(t, j);
    assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == h(t) by { assert((xtw@.e)(i, t) == (x@.e)(t, i) * wv(t)); }
    sum_ext(f, h, n);
  } }
  if invertible(g, p) {
    inv_ext(g, xtwx@.e, p);
    let b = wmom(x@.e, y@.e, wv, n); let b0 = col(mm(xtw@.e, y@.e, n));
    assert forall|i: int| 0 <= i < p implies #[trigger] mv(xtwx@.e, col(__ret@.e), p)(i) == b0(i) by {
      assert(mm(xtwx@.e, __ret@.e, p)(i, 0) == mm(xtw@.e, y@.e, n)(i, 0));
      sum_ext(|t: int| (xtwx@.e)(i, t) * col(__ret@.e)(t), |t: int| (xtwx@.e)(i, t) * (__ret@.e)(t, 0), p);
    }
    assert forall|i: int| 0 <= i < p implies #[trigger] b(i) == b0(i) by {
      let f = |t: int| (xtw@.e)(i, t) * (y@.e)(t, 0); let h = |t: int| ((x@.e)(t, i) * wv(t)) * (y@.e)(t, 0);
      assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == h(t) by { assert((xtw@.e)(i, t) == (x@.e)(t, i) * wv(t)); }
      sum_ext(f, h, n);
    }
    assert(feq(g, xtwx@.e, p)) by { assert forall|i: int, j: int| 0 <= i < p && 0 <= j < p implies #[trigger] g(i, j) == (xtwx@.e)(i, j) by { assert((xtwx@.e)(i, j) == g(i, j)); } }
    ne_ext(xtwx@.e, g, col(__ret@.e), b0, b, p);
  }
}
//@end

// ---------------------------------------------------------------- coordinate descent
pub open spec fn soft(z: real, l: real) -> real { if z > l { z - l } else if z < -l { z + l } else { 0real } }
pub proof fn soft_lip(a: real, b: real, l: real) requires l >= 0real ensures rabs(soft(a, l) - soft(b, l)) <= rabs(a - b) {}
//@fn path=soft_threshold_l1 file=linalg/lr_solvers.rs ret=r wrap_tail=1
//@spec
requires lambda@ >= 0real ensures r@ == soft(z@, lambda@)
//@at fn.start
proof { let a = rmax(rabs(z@) - lambda@, 0real); assert(1real * a == a) by(nonlinear_arith); assert((-1real) * a == -a) by(nonlinear_arith); }
//@end
// squared norm of column j, plus m * l2
pub open spec fn cnorm(x: F2, n: int, j: int, m: real, l2: real) -> real { sum(|t: int| x(t, j) * x(t, j), n) + m * l2 }
// x_j . (y - the fit of all columns but j)
pub open spec fn but(b: F1, j: int) -> F1 { |t: int| if t == j { 0real } else { b(t) } }
pub open spec fn rterm(xtx: F2, j: int, b: F1) -> F1 { |t: int| xtx(j, t) * but(b, j)(t) }
pub open spec fn rho(xty: F1, xtx: F2, j: int, b: F1, p: int) -> real { xty(j) - sum(rterm(xtx, j, b), p) }
pub open spec fn asum(xtx: F2, j: int, p: int) -> real { sum(|t: int| rabs(xtx(j, t)), p) }
// the coordinates satisfy their fixed-point equation up to tol, the intercept is the mean residual
pub open spec fn cd_opt(x: F2, xty: F1, xtx: F2, y: F2, b: F1, n: int, p: int, n1: int, bias: bool, l1: real, l2: real, tol: real) -> bool {
  let m = n as real;
  &&& forall|j: int| 0 <= j < n1 ==> rabs(b(j) * #[trigger] cnorm(x, n, j, m, l2) - soft(rho(xty, xtx, j, b, p), m * l1)) <= tol * asum(xtx, j, p)
  &&& bias ==> b(n1) * m == sum(|i: int| y(i, 0) - sum(|t: int| x(i, t) * b(t), n1), n)
}
// one sweep from prev to b: each coordinate in turn to its soft-thresholded residual, then the intercept to the mean residual
pub open spec fn cd_sweep(x: F2, xty: F1, xtx: F2, y: F2, prev: F1, b: F1, n: int, p: int, n1: int, bias: bool, l1: real, l2: real) -> bool {
  let m = n as real;
  &&& forall|k: int| 0 <= k < n1 ==> b(k) * #[trigger] cnorm(x, n, k, m, l2) == soft(rho(xty, xtx, k, mixb(b, prev, k), p), m * l1)
  &&& bias ==> b(n1) * m == sum(|i: int| y(i, 0) - sum(|t: int| x(i, t) * b(t), n1), n)
}
// k sweeps from zero
pub open spec fn cd_run(s: spec_fn(int) -> F1, k: int, x: F2, xty: F1, xtx: F2, y: F2, n: int, p: int, n1: int, bias: bool, l1: real, l2: real) -> bool {
  &&& forall|t: int| 0 <= t < p ==> #[trigger] s(0)(t) == 0real
  &&& forall|i: int| 0 <= i < k ==> cd_sweep(x, xty, xtx, y, #[trigger] s(i), s(i + 1), n, p, n1, bias, l1, l2)
}
// the result of coordinate descent: either the equations hold up to tol, or it is what max_iter sweeps give
pub open spec fn cd_res(x: F2, y: F2, b: F1, n: int, p: int, bias: bool, l1: real, l2: real, tol: real, max_iter: int) -> bool {
  let h = col(mm(tr(x), y, n)); let g = mm(tr(x), x, n); let n1 = pcols(p, bias);
  exists|s: spec_fn(int) -> F1, k: int| 0 <= k <= max_iter && #[trigger] cd_run(s, k, x, h, g, y, n, p, n1, bias, l1, l2) && s(k) == b && (k == max_iter || cd_opt(x, h, g, y, b, n, p, n1, bias, l1, l2, tol))
}
pub open spec fn mixb(b: F1, prev: F1, j: int) -> F1 { |t: int| if t < j { b(t) } else { prev(t) } }
pub proof fn sum_le(f: F1, g: F1, n: int) requires forall|t: int| 0 <= t < n ==> #[trigger] f(t) <= g(t) ensures sum(f, n) <= sum(g, n) decreases n { if n > 0 { sum_le(f, g, n - 1); } }
pub proof fn sum_abs(f: F1, n: int) ensures rabs(sum(f, n)) <= sum(|t: int| rabs(f(t)), n) decreases n { if n > 0 { sum_abs(f, n - 1); } }
// moving the other coordinates by at most d moves rho by at most d * sum |xtx_j|
pub proof fn rho_near(xty: F1, xtx: F2, j: int, b: F1, c: F1, p: int, d: real) requires d >= 0real, forall|t: int| 0 <= t < p ==> rabs(#[trigger] b(t) - c(t)) <= d
  ensures rabs(rho(xty, xtx, j, b, p) - rho(xty, xtx, j, c, p)) <= d * asum(xtx, j, p)
{
  let f = rterm(xtx, j, b); let g = rterm(xtx, j, c);
  let ng = |t: int| -1real * g(t);
  sum_scale(-1real, g, p); sum_ext(|t: int| -1real * g(t), ng, p);
  let h = |t: int| f(t) + ng(t);
  sum_add(f, ng, p); sum_ext(|t: int| f(t) + ng(t), h, p);
  sum_abs(h, p);
  let a = |t: int| rabs(h(t)); let e = |t: int| d * rabs(xtx(j, t));
  assert forall|t: int| 0 <= t < p implies #[trigger] a(t) <= e(t) by {
    let k = xtx(j, t); let u = if t == j { 0real } else { b(t) }; let v = if t == j { 0real } else { c(t) };
    assert(rabs(b(t) - c(t)) <= d);
    assert(k * u + -1real * (k * v) == k * (u - v)) by(nonlinear_arith);
    abs_mul(k, u - v, d);
  }
  sum_le(a, e, p);
  let q = |t: int| rabs(xtx(j, t));
  sum_scale(d, q, p); sum_ext(|t: int| d * q(t), e, p); sum_ext(a, |t: int| rabs(h(t)), p);
  assert(sum(q, p) == asum(xtx, j, p));
  assert(rabs(sum(h, p)) <= d * asum(xtx, j, p));
  assert(sum(h, p) == sum(f, p) - sum(g, p));
  assert(rho(xty, xtx, j, b, p) == xty(j) - sum(f, p));
  assert(rho(xty, xtx, j, c, p) == xty(j) - sum(g, p));
}
pub proof fn abs_mul(k: real, w: real, d: real) requires rabs(w) <= d ensures rabs(k * w) <= d * rabs(k)
{
  if k >= 0real { assert(k * w <= k * d && k * w >= k * (-d)) by(nonlinear_arith) requires k >= 0real, w <= d, w >= -d; assert(k * (-d) == -(k * d)) by(nonlinear_arith); assert(k * d == d * k) by(nonlinear_arith); }
  else { assert(k * w >= k * d && k * w <= k * (-d)) by(nonlinear_arith) requires k < 0real, w <= d, w >= -d; assert(k * (-d) == d * (-k)) by(nonlinear_arith); assert(k * d == -(d * (-k))) by(nonlinear_arith); }
}
//@fn path=faer_coordinate_descent file=linalg/lr_solvers.rs ret=r wrap_tail=1
//@drop_stmts println
//@letty __acc0 Vec<R>
//@spec
requires x@.r == y@.r, y@.c == 1, x@.r >= 1, x@.c >= 1, l1_reg@ >= 0real, tol@ >= 0real,
  forall|j: int| 0 <= j < pcols(x@.c, has_bias) ==> #[trigger] cnorm(x@.e, x@.r, j, x@.r as real, l2_reg@) != 0real,
ensures r@.r == x@.c, r@.c == 1, cd_res(x@.e, y@.e, col(r@.e), x@.r, x@.c, has_bias, l1_reg@, l2_reg@, tol@, max_iter as int)
//@at fn.start
let ghost p = x@.c; let ghost n = x@.r; let ghost mr = x@.r as real; let ghost xe = x@.e; let ghost ye = y@.e;
proof { mx_dims(x); }
//@at let.lambda_l1.0
proof { assert(lambda_l1@ == mr * l1_reg@); assert(mr * l1_reg@ >= 0real) by(nonlinear_arith) requires mr >= 0real, l1_reg@ >= 0real; }
//@loop 0
invariant __n0 == p, p == x@.c, n == x@.r, xe == x@.e, mr == n as real, m@ == mr, __s1@.len() == p, __i0 <= __n0, __acc0@.len() == __i0,
  forall|j: int| 0 <= j < p ==> (#[trigger] __s1@[j])@.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] __s1@[j]@[i])@ == xe(i, j)),
  forall|j: int| 0 <= j < __i0 ==> (#[trigger] __acc0@[j])@ == cnorm(xe, n, j, mr, l2_reg@),
decreases __n0 - __i0
//@at loop0.end
proof { let j = __p0 as int; sum_ext(|i: int| c@[i]@ * c@[i]@, |t: int| xe(t, j) * xe(t, j), n); }
//@at let.xtx.0
let ghost g = xtx@.e; let ghost h = col(xty@.e); let ghost c0 = col(beta@.e); let ghost mut hist = |k: int| c0;
//@loop 1
invariant_except_break
  !converge,
invariant p == x@.c, n == x@.r, mr == n as real, m@ == mr, n >= 1, xe == x@.e, ye == y@.e, x@.r == y@.r, y@.c == 1, n1 == pcols(p, has_bias), p >= 1, lambda_l1@ == mr * l1_reg@, lambda_l1@ >= 0real, tol@ >= 0real,
  norms@.len() == p, forall|j: int| 0 <= j < p ==> (#[trigger] norms@[j])@ == cnorm(xe, n, j, mr, l2_reg@), forall|j: int| 0 <= j < n1 ==> #[trigger] cnorm(xe, n, j, mr, l2_reg@) != 0real,
  xty@.r == p, xty@.c == 1, h == col(xty@.e), xtx@.r == p, xtx@.c == p, g == xtx@.e, beta@.r == p, beta@.c == 1,
  __n1 == max_iter, __i1 <= __n1,
  cd_run(hist, __i1 as int, xe, h, g, ye, n, p, n1 as int, has_bias, l1_reg@, l2_reg@), hist(__i1 as int) == col(beta@.e),
ensures converge ==> cd_opt(xe, h, g, ye, col(beta@.e), n, p, n1 as int, has_bias, l1_reg@, l2_reg@, tol@),
  !converge ==> __i1 == max_iter,
decreases __n1 - __i1
//@at let.max_change.0
let ghost prev = col(beta@.e); let ghost mut bs = prev; let ghost mut mc = 0real;
//@loop 2
invariant p == x@.c, n == x@.r, mr == n as real, n1 == pcols(p, has_bias), p >= 1, lambda_l1@ == mr * l1_reg@, lambda_l1@ >= 0real,
  norms@.len() == p, forall|j: int| 0 <= j < p ==> (#[trigger] norms@[j])@ == cnorm(xe, n, j, mr, l2_reg@), forall|j: int| 0 <= j < n1 ==> #[trigger] cnorm(xe, n, j, mr, l2_reg@) != 0real,
  xty@.r == p, xty@.c == 1, h == col(xty@.e), xtx@.r == p, xtx@.c == p, g == xtx@.e, beta@.r == p, beta@.c == 1,
  __n2 == n1, __i2 <= __n2, max_change@ >= 0real,
  forall|k: int| __i2 <= k < p ==> #[trigger] col(beta@.e)(k) == prev(k),
  forall|k: int| 0 <= k < __i2 ==> rabs(#[trigger] col(beta@.e)(k) - prev(k)) <= max_change@,
  forall|k: int| 0 <= k < __i2 ==> col(beta@.e)(k) * #[trigger] cnorm(xe, n, k, mr, l2_reg@) == soft(rho(h, g, k, mixb(col(beta@.e), prev, k), p), lambda_l1@),
decreases __n2 - __i2
//@at let.j.0
let ghost b1 = col(beta@.e); let ghost jj = j as int; let ghost mc2 = max_change@;
proof { assert(b1(jj) == prev(jj)); assert forall|k: int| 0 <= k < jj implies rabs(#[trigger] b1(k) - prev(k)) <= mc2 by {} }
//@at let.main_update.0
proof {
  let be = beta@.e;
  let f = |t: int| (xtx_j@.e)(0, t) * be(t, 0); let q = rterm(g, jj, mixb(b1, prev, jj));
  assert forall|t: int| 0 <= t < p implies #[trigger] f(t) == q(t) by { assert(col(beta@.e)(t) == be(t, 0)); assert(b1(t) == if t == jj { b1(t) } else { be(t, 0) }); }
  sum_ext(f, q, p); sum_ext(f, |t: int| (xtx_j@.e)(0, t) * be(t, 0), p);
  assert((xtx_j@.c) == p); assert(main_update@ == h(jj) - sum(f, p)); assert(main_update@ == rho(h, g, jj, mixb(b1, prev, jj), p));
}
//@at let.after.0
proof { let (a, b, c) = (soft(main_update@, lambda_l1@), norms@[jj]@, after@); assert(c * b == a) by(nonlinear_arith) requires c == a / b, b != 0real; }
//@at loop2.end
proof {
  let b2 = col(beta@.e);
  assert forall|k: int| true implies #[trigger] b2(k) == if k == jj { after@ } else { b1(k) } by {}
  assert forall|k: int| 0 <= k < __i2 implies rabs(#[trigger] b2(k) - prev(k)) <= max_change@ by { assert(mc2 <= max_change@); if k < jj { assert(rabs(b1(k) - prev(k)) <= mc2); } else { assert(before@ == prev(jj)); } }
  assert forall|k: int| 0 <= k < __i2 implies b2(k) * #[trigger] cnorm(xe, n, k, mr, l2_reg@) == soft(rho(h, g, k, mixb(b2, prev, k), p), lambda_l1@) by {
    sum_ext(rterm(g, k, mixb(b2, prev, k)), rterm(g, k, mixb(b1, prev, k)), p);
    if k < jj { assert(b2(k) == b1(k)); }
  }
}
//@at loop2.post
proof { bs = col(beta@.e); mc = max_change@; }
//@at let.ss.0
proof {
  let ge = (|i: int, t: int| 0real);
  let f = |i: int| ye(i, 0) - sum(|t: int| xe(i, t) * bs(t), n1 as int);
  let s0 = sum(f, n);
  assert(ss@ == s0 / mr) by {
    let xxe = xx@.e; let bbe = bb@.e;
    let f2 = |i: int| ye(i, 0) - mm(xxe, bbe, n1 as int)(i, 0);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == f2(i) by { sum_ext(|t: int| xxe(i, t) * bbe(t, 0), |t: int| xe(i, t) * bs(t), n1 as int); }
    sum_ext(f, f2, n);
    sum_ext(f2, |i: int| (|i: int, j: int| ye(i, j) - mm(xxe, bbe, n1 as int)(i, j))(i, 0), n);
  }
  let c = ss@; assert(c * mr == s0) by(nonlinear_arith) requires c == s0 / mr, mr > 0real;
}
//@at set.converge.0
proof {
  let bf = col(beta@.e);
  assert(cd_sweep(xe, h, g, ye, prev, bf, n, p, n1 as int, has_bias, l1_reg@, l2_reg@)) by {
    assert forall|k: int| 0 <= k < n1 implies bf(k) * #[trigger] cnorm(xe, n, k, mr, l2_reg@) == soft(rho(h, g, k, mixb(bf, prev, k), p), mr * l1_reg@) by {
      assert(bf(k) == bs(k));
      sum_ext(rterm(g, k, mixb(bf, prev, k)), rterm(g, k, mixb(bs, prev, k)), p);
    }
    if has_bias {
      let (f, q) = (|i: int| ye(i, 0) - sum(|t: int| xe(i, t) * bs(t), n1 as int), |i: int| ye(i, 0) - sum(|t: int| xe(i, t) * bf(t), n1 as int));
      assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == q(i) by { sum_ext(|t: int| xe(i, t) * bs(t), |t: int| xe(i, t) * bf(t), n1 as int); }
      sum_ext(f, q, n);
    }
  }
  let old_h = hist; let kk = __i1 as int;
  hist = |k: int| if k == kk { bf } else { old_h(k) };
  assert forall|i: int| 0 <= i < kk implies cd_sweep(xe, h, g, ye, #[trigger] hist(i), hist(i + 1), n, p, n1 as int, has_bias, l1_reg@, l2_reg@) by { assert(old_h(i) == hist(i)); if i == kk - 1 { assert(hist(i) == prev); } else { assert(old_h(i + 1) == hist(i + 1)); } }
  assert forall|t: int| 0 <= t < p implies #[trigger] hist(0)(t) == 0real by { assert(old_h(0)(t) == 0real); }
  if converge {
    let d = max_change@;
    assert forall|k: int| 0 <= k < n1 implies #[trigger] bf(k) == bs(k) by {}
    assert(mc <= d);
    assert forall|k: int| 0 <= k < p implies rabs(#[trigger] bf(k) - prev(k)) <= d by { if k < n1 { assert(bf(k) == bs(k)); assert(rabs(bs(k) - prev(k)) <= mc); } }
    assert forall|j: int| 0 <= j < n1 implies rabs(bf(j) * #[trigger] cnorm(xe, n, j, mr, l2_reg@) - soft(rho(h, g, j, bf, p), mr * l1_reg@)) <= tol@ * asum(g, j, p) by {
      let mx = mixb(bs, prev, j);
      assert forall|t: int| 0 <= t < p implies rabs(#[trigger] bf(t) - mx(t)) <= d by { if t < j { assert(bf(t) == bs(t)); } }
      rho_near(h, g, j, bf, mx, p, d);
      soft_lip(rho(h, g, j, mx, p), rho(h, g, j, bf, p), mr * l1_reg@);
      assert(bf(j) == bs(j));
      asum_nn(g, j, p);
      let a = asum(g, j, p); let tt = tol@;
      assert(d * a <= tt * a) by(nonlinear_arith) requires d <= tt, a >= 0real;
    }
    if has_bias {
      let (f, q) = (|i: int| ye(i, 0) - sum(|t: int| xe(i, t) * bs(t), n1 as int), |i: int| ye(i, 0) - sum(|t: int| xe(i, t) * bf(t), n1 as int));
      assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == q(i) by { sum_ext(|t: int| xe(i, t) * bs(t), |t: int| xe(i, t) * bf(t), n1 as int); }
      sum_ext(f, q, n);
    }
  }
}
//@at fn.end
proof { assert(xtx@.e == g); assert(__ret@.e == beta@.e); assert(cd_res(xe, ye, col(beta@.e), n, p, has_bias, l1_reg@, l2_reg@, tol@, max_iter as int)); }
//@end
impl ElasticNet {
//@fn path=ElasticNet::fit_unchecked file=linalg/lr_solvers.rs id=ElasticNet_fit_unchecked wrap_tail=1
//@spec
requires X@.r == y@.r, y@.c == 1, X@.r >= 1, X@.c >= 1, X@.c < usize::MAX, old(self).l1_reg@ >= 0real, old(self).tol@ >= 0real,
  forall|j: int| 0 <= j < X@.c ==> #[trigger] cnorm(design(X@, old(self).has_bias), X@.r, j, X@.r as real, old(self).l2_reg@) != 0real,
ensures *final(self) == (ElasticNet { coefficients: final(self).coefficients, ..*old(self) }), final(self).coefficients@.r == pdim(X@, old(self).has_bias), final(self).coefficients@.c == 1,
  cd_res(design(X@, old(self).has_bias), y@.e, col(final(self).coefficients@.e), X@.r, pdim(X@, old(self).has_bias), old(self).has_bias, old(self).l1_reg@, old(self).l2_reg@, old(self).tol@, old(self).max_iter as int)
//@at fn.start
let ghost l2 = self.l2_reg@; let ghost hb = self.has_bias;
proof { let d = design(X@, hb); assert forall|j: int| 0 <= j < pcols(pdim(X@, hb), hb) implies #[trigger] cnorm(d, X@.r, j, X@.r as real, l2) != 0real by {} }
//@at let.new_x.0
proof { assert(new_x@.e =~= design(X@, true)); }
//@end
//@fn path=ElasticNet::fit file=linalg/lr_solvers.rs id=ElasticNet_fit ret=r
//@spec
requires y@.c == 1, X@.c >= 1, X@.c < usize::MAX, old(self).l1_reg@ >= 0real, old(self).tol@ >= 0real,
  forall|j: int| 0 <= j < X@.c ==> #[trigger] cnorm(design(X@, old(self).has_bias), X@.r, j, X@.r as real, old(self).l2_reg@) != 0real,
ensures r is Err == (X@.r != y@.r || X@.r == 0), r is Err ==> *final(self) == *old(self),
  r is Ok ==> *final(self) == (ElasticNet { coefficients: final(self).coefficients, ..*old(self) }) && final(self).coefficients@.r == pdim(X@, old(self).has_bias) && final(self).coefficients@.c == 1
    && cd_res(design(X@, old(self).has_bias), y@.e, col(final(self).coefficients@.e), X@.r, pdim(X@, old(self).has_bias), old(self).has_bias, old(self).l1_reg@, old(self).l2_reg@, old(self).tol@, old(self).max_iter as int)
//@end
//@fn path=ElasticNet::set_coeffs_and_bias file=linalg/lr_solvers.rs id=ElasticNet_set_coeffs_and_bias
//@spec
requires coeffs@.len() < usize::MAX
ensures ({ let hb = rabs(bias@) > EPSV(); let k = coeffs@.len() + if hb { 1int } else { 0int };
  &&& *final(self) == (ElasticNet { coefficients: final(self).coefficients, has_bias: hb, ..*old(self) }) && final(self).coefficients@.r == k && final(self).coefficients@.c == 1
  &&& forall|i: int| 0 <= i < k ==> #[trigger] (final(self).coefficients@.e)(i, 0) == if i < coeffs@.len() { coeffs@[i]@ } else { bias@ } })
//@closure 0
-> (o: R) ensures o == (if i < coeffs@.len() { coeffs@[i as int] } else { bias })
//@end
}
impl LR {
//@fn path=LR::set_coeffs_and_bias file=linalg/lr_solvers.rs id=LR_set_coeffs_and_bias
//@spec
requires coeffs@.len() < usize::MAX
ensures ({ let hb = rabs(bias@) > EPSV(); let k = coeffs@.len() + if hb { 1int } else { 0int };
  &&& *final(self) == (LR { coefficients: final(self).coefficients, has_bias: hb, ..*old(self) }) && final(self).coefficients@.r == k && final(self).coefficients@.c == 1
  &&& forall|i: int| 0 <= i < k ==> #[trigger] (final(self).coefficients@.e)(i, 0) == if i < coeffs@.len() { coeffs@[i]@ } else { bias@ } })
//@closure 0
-> (o: R) ensures o == (if i < coeffs@.len() { coeffs@[i as int] } else { bias })
//@end
}
pub proof fn asum_nn(xtx: F2, j: int, p: int) ensures asum(xtx, j, p) >= 0real { let f = |t: int| rabs(xtx(j, t)); let z = |t: int| 0real; sum_zero(z, p); sum_le(z, f, p); }

// ---------------------------------------------------------------- singular values below a threshold dropped
pub open spec fn mxs(f: F1, n: int) -> real decreases n { if n <= 0 { -MAXV() } else { rmax(mxs(f, n - 1), f(n - 1)) } }
pub open spec fn svals(g: Mx) -> F1 { |i: int| rsqrt(svs(g)(i)) }
// the least squared singular value that counts: (rcond s_max)^2, or what rounding leaves of the largest
pub open spec fn sthr(g: Mx, rcond: real, p: int) -> real { let m = mxs(svals(g), p); rmax((rcond * m) * (rcond * m), EPSV() * (p as real) * m * m) }
pub open spec fn sdiag(g: Mx, t: real, p: int) -> F2 { |i: int, j: int| if i == j && 0 <= i < p { if svs(g)(i) >= t { 1real / svs(g)(i) } else { 0real } } else { 0real } }
pub proof fn mxs_le(f: F1, n: int, i: int) requires 0 <= i < n ensures f(i) <= mxs(f, n) decreases n { if i < n - 1 { mxs_le(f, n - 1, i); } }
pub proof fn mxs_ext(f: F1, g: F1, n: int) requires forall|t: int| 0 <= t < n ==> #[trigger] f(t) == g(t) ensures mxs(f, n) == mxs(g, n) decreases n { if n > 0 { mxs_ext(f, g, n - 1); } }
pub open spec fn isgram(g: Mx, x: Mx, l: real, bias: bool) -> bool { g.r == x.c && g.c == x.c && g.e == gramc(x.e, x.r, l, pcols(x.c, bias), x.c) }
//@fn path=faer_solve_lstsq_rcond file=linalg/lr_solvers.rs ret=r wrap_tail=1
//@letty __acc1 Vec<R>
//@spec
requires x@.r == y@.r, y@.c == 1, x@.c >= 1,
  forall|g: Mx| #[trigger] isgram(g, x@, lambda@, has_bias) ==> svok(g) && exists|i: int| 0 <= i < x@.c && #[trigger] svs(g)(i) > 0real,
ensures r.0@.r == x@.c, r.0@.c == 1, r.1@.len() == x@.c,
  exists|g: Mx| #[trigger] isgram(g, x@, lambda@, has_bias) && (forall|i: int| 0 <= i < x@.c ==> (#[trigger] r.1@[i])@ == rsqrt(svs(g)(i)))
    && r.0@.e == mm(mm(mm(mm(svv(g), sdiag(g, sthr(g, rcond@, x@.c), x@.c), x@.c), tr(svu(g)), x@.c), tr(x@.e), x@.c), y@.e, x@.r)
//@at let.xtx.0
let ghost g0 = xtx@.e; let ghost nr = x@.r; let ghost p = x@.c;
proof { mx_dims(x); if !(lambda@ >= 0real && n1 >= 1) { assert(xtx@.e =~= gramc(x@.e, nr, lambda@, pcols(p, has_bias), p)); assert(isgram(xtx@, x@, lambda@, has_bias)); } }
//@loop 0
invariant __n0 == n1, __i0 <= __n0, n1 <= p, n1 == pcols(p, has_bias), xtx@.r == p, xtx@.c == p, lambda@ >= 0real,
  xtx@.e == (|i: int, j: int| if i == j && 0 <= i < __i0 { g0(i, j) + lambda@ } else { g0(i, j) }),
decreases __n0 - __i0
//@at loop0.pre
assert(xtx@.e =~= (|i: int, j: int| if i == j && 0 <= i < 0 { g0(i, j) + lambda@ } else { g0(i, j) }));
//@at loop0.end
assert(xtx@.e =~= (|i: int, j: int| if i == j && 0 <= i < __i0 { g0(i, j) + lambda@ } else { g0(i, j) }));
//@at loop0.post
proof { assert(xtx@.e =~= gramc(x@.e, nr, lambda@, pcols(p, has_bias), p)); assert(isgram(xtx@, x@, lambda@, has_bias)); }
//@at let.s.0
let ghost gm = xtx@; let ghost sv = svals(gm);
proof { assert(svd@ == gm); assert(s@.len() == p); assert forall|i: int| 0 <= i < p implies (#[trigger] s@[i])@ == svs(gm)(i) && svs(gm)(i) >= 0real by { let z = s@[i]; assert(z@ == svs(svd@)(i)); } }
//@loop 1
invariant __n1 == s@.len(), s@.len() == p, __i1 <= __n1, gm == xtx@, sv == svals(gm), gm.r == p, forall|i: int| 0 <= i < p ==> (#[trigger] s@[i])@ == svs(gm)(i) && svs(gm)(i) >= 0real,
  __acc1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> (#[trigger] __acc1@[i])@ == sv(i),
decreases __n1 - __i1
//@at loop1.pre
proof { assert forall|i: int| 0 <= i < p implies (#[trigger] s@[i])@ == svs(gm)(i) && svs(gm)(i) >= 0real by { let z = s@[i]; assert(z@ == svs(svd@)(i)); } }
//@loop 2
invariant __n2 == singular_values@.len(), __n2 == p, __i2 <= __n2, forall|i: int| 0 <= i < p ==> (#[trigger] singular_values@[i])@ == sv(i), __acc2@ == mxs(sv, __i2 as int),
decreases __n2 - __i2
//@at let.threshold.1
let ghost t = threshold@;
proof {
  assert(isgram(gm, x@, lambda@, has_bias)) by { assert(gm.e =~= gramc(x@.e, nr, lambda@, pcols(p, has_bias), p)); }
  let i = choose|i: int| 0 <= i < x@.c && #[trigger] svs(gm)(i) > 0real;
  mxs_le(sv, p, i); rsqrt_def(svs(gm)(i)); epsv_pos();
  let (m, e, k, q) = (mxs(sv, p), EPSV(), p as real, rsqrt(svs(gm)(i)));
  assert(q > 0real) by { if q == 0real { assert(q * q == 0real) by(nonlinear_arith) requires q == 0real; } }
  assert(e * k > 0real) by(nonlinear_arith) requires e > 0real, k >= 1real;
  let ek = e * k;
  assert(ek * m > 0real) by(nonlinear_arith) requires ek > 0real, m > 0real;
  let ekm = ek * m;
  assert(ekm * m > 0real) by(nonlinear_arith) requires ekm > 0real, m > 0real;
  assert(t == sthr(gm, rcond@, p)); assert(t > 0real);
}
//@loop 3
invariant __n3 == s@.len(), s@.len() == p, __i3 <= __n3, gm == xtx@, gm.r == p, n == p, t == threshold@, t > 0real, forall|i: int| 0 <= i < p ==> (#[trigger] s@[i])@ == svs(gm)(i) && svs(gm)(i) >= 0real,
  s_inv@.r == p, s_inv@.c == p, forall|i: int, j: int| #[trigger] (s_inv@.e)(i, j) == if 0 <= i < __i3 { sdiag(gm, t, p)(i, j) } else { 0real },
decreases __n3 - __i3
//@at let.weights.0
proof { assert(s_inv@.e =~= sdiag(gm, t, p)); }
//@end
}
fn main(){}
