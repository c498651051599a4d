//@soft
//@include prelude_real.rs
//@include expr.rs
//@default types=T:R,f64:R methods=into=>vx_into
verus!{
//@fn file=num_ext/tp_fp.rs path=ratio ret=r
//@spec
ensures forall|m: Map<int, V>| #[trigger] den(r, m) == vratio(den(numerator, m), den(denominator, m))
//@at fn.start
proof { reveal(vratio); reveal(vdiv); }
//@end

// counts of the four outcomes; proved of binary_confusion_matrix in metrics.vrs, from the same source
pub open spec fn cnt(s: Seq<u32>, v: int, n: int) -> nat decreases n { if n <= 0 { 0nat } else { cnt(s, v, n - 1) + if s[n - 1] % 4 == v { 1nat } else { 0nat } } }
#[verifier::external_body] pub fn binary_confusion_matrix(c: &Ca) -> (r: [u32; 4])
  requires c@.len() <= u32::MAX
  ensures forall|v: int| 0 <= v < 4 ==> (#[trigger] r@[v]) == cnt(c@, v, c@.len() as int) { unimplemented!() }
pub proof fn cnt_sum(s: Seq<u32>, n: int) requires 0 <= n <= s.len() ensures cnt(s, 0, n) + cnt(s, 1, n) + cnt(s, 2, n) + cnt(s, 3, n) == n decreases n { if n > 0 { cnt_sum(s, n - 1); } }

// a ratio of two counts or rates: not a number when the denominator is zero (or not a number itself)
#[verifier::opaque] pub open spec fn vratio(a: V, b: V) -> V { let (x, y) = (vcast(a), vcast(b)); if y == V::F(0real) { V::NaN } else { vdiv(x, y) } }
#[verifier::opaque] pub open spec fn q(a: int, b: int) -> V { if b == 0 { V::NaN } else { V::F(a as real / b as real) } }
#[verifier::opaque] pub open spec fn one_less(v: V) -> V { match v { V::F(x) => V::F(1real - x), _ => V::NaN } }
pub open spec fn minus_one(v: V) -> V { match v { V::F(x) => V::F(x - 1real), _ => V::NaN } }
#[verifier::opaque] pub open spec fn plus(a: V, b: V) -> V { match (a, b) { (V::F(x), V::F(y)) => V::F(x + y), _ => V::NaN } }
#[verifier::opaque] pub open spec fn times(a: V, b: V) -> V { match (a, b) { (V::F(x), V::F(y)) => V::F(x * y), _ => V::NaN } }
#[verifier::opaque] pub open spec fn root(a: V) -> V { match a { V::F(x) => if x < 0real { V::NaN } else { V::F(rsqrt(x)) }, _ => V::NaN } }
#[verifier::opaque] pub open spec fn over(a: V, b: V) -> V { match (a, b) { (V::F(x), V::F(y)) => if y == 0real { V::NaN } else { V::F(x / y) }, _ => V::NaN } }
#[verifier::opaque] pub open spec fn less(a: V, b: V) -> V { match (a, b) { (V::F(x), V::F(y)) => V::F(x - y), _ => V::NaN } }
#[verifier::opaque] pub open spec fn scaled(k: real, a: V) -> V { match a { V::F(x) => V::F(k * x), _ => V::NaN } }

pub open spec fn fl(v: V) -> bool { v is F || v is NaN }
// on numbers the operations of the expressions are those of the definitions
pub proof fn on_floats()
  ensures forall|a: V, b: V| fl(a) && fl(b) ==> #[trigger] vmul(a, b) == times(a, b), forall|a: V, b: V| fl(a) && fl(b) ==> fl(#[trigger] times(a, b)) && times(a, b) == times(b, a),
    forall|a: V, b: V| fl(a) && fl(b) ==> #[trigger] vadd(a, b) == plus(a, b), forall|a: V, b: V| fl(a) && fl(b) ==> fl(#[trigger] plus(a, b)) && plus(a, b) == plus(b, a),
    forall|a: V, b: V| fl(a) && fl(b) ==> #[trigger] vsub(a, b) == less(a, b), forall|a: V, b: V| fl(a) && fl(b) ==> fl(#[trigger] less(a, b)),
    forall|a: V, b: V| fl(a) && fl(b) ==> #[trigger] vratio(a, b) == over(a, b), forall|a: V, b: V| fl(a) && fl(b) ==> fl(#[trigger] over(a, b)),
    forall|a: V| fl(a) ==> #[trigger] vsqrt(a) == root(a), forall|a: V| fl(a) ==> fl(#[trigger] root(a)),
    forall|a: V| fl(a) ==> #[trigger] vsub(V::L(1), a) == one_less(a), forall|a: V| fl(a) ==> fl(#[trigger] one_less(a)),
    forall|a: V| fl(a) ==> #[trigger] vsub(a, V::L(1)) == minus_one(a), forall|a: V| fl(a) ==> fl(#[trigger] minus_one(a)),
    forall|a: V| fl(a) ==> #[trigger] vmul(V::L(2), a) == scaled(2real, a), forall|a: V| fl(a) ==> #[trigger] vmul(a, V::L(2)) == scaled(2real, a),
    forall|k: real, a: V| fl(a) ==> fl(#[trigger] scaled(k, a)), forall|k: real, a: V, b: V| fl(a) && fl(b) ==> #[trigger] times(scaled(k, a), b) == scaled(k, times(a, b)),
    forall|a: V| fl(a) ==> #[trigger] vdiv(a, V::L(2)) == scaled(1real / 2real, a),
    forall|a: int, b: int| fl(#[trigger] q(a, b)),
{ reveal(vmul); reveal(vadd); reveal(vsub); reveal(vdiv); reveal(vsqrt); reveal(vratio); reveal(times); reveal(plus); reveal(less); reveal(over); reveal(root); reveal(one_less); reveal(scaled); reveal(q);
  assert forall|a: V, b: V| fl(a) && fl(b) implies times(a, b) == times(b, a) by { let (x, y) = (a->F_0, b->F_0); assert(x * y == y * x) by(nonlinear_arith); }
  assert forall|a: V| fl(a) implies #[trigger] vmul(V::L(2), a) == scaled(2real, a) by { let x = a->F_0; assert(2int as real == 2real); if a is F { assert(vmul(V::L(2), a) == V::F(2int as real * x)); } else { assert(a == V::NaN); } }
  assert forall|a: V| fl(a) implies #[trigger] vmul(a, V::L(2)) == scaled(2real, a) by { let x = a->F_0; assert(2int as real == 2real); assert(x * 2real == 2real * x) by(nonlinear_arith); if a is F { assert(vmul(a, V::L(2)) == V::F(x * (2int as real))); } else { assert(a == V::NaN); } }
  assert forall|k: real, a: V, b: V| fl(a) && fl(b) implies #[trigger] times(scaled(k, a), b) == scaled(k, times(a, b)) by { let (x, y) = (a->F_0, b->F_0); assert((k * x) * y == k * (x * y)) by(nonlinear_arith); }
}
pub proof fn on_counts()
  ensures forall|a: int, b: int| a >= 0 && b >= 0 && a + b <= u32::MAX ==> #[trigger] vadd(V::U(a), V::U(b)) == V::U(a + b),
    forall|a: int, b: int| a >= 0 && b >= 0 ==> #[trigger] vratio(V::U(a), V::U(b)) == q(a, b)
{ reveal(vadd); reveal(vdiv); reveal(vratio); reveal(q); }
// the table of all metrics, from the four counts
pub open spec fn table(m: Map<int, V>, tn: int, fp: int, fnn: int, tp: int) -> bool {
  let tpr = q(tp, tp + fnn); let fpr = q(fp, fp + tn); let ppv = q(tp, tp + fp); let fomr = q(fnn, fnn + tn);
  let fnr = one_less(tpr); let tnr = one_less(fpr); let npv = one_less(fomr); let fdr = one_less(ppv);
  let plr = over(tpr, fpr); let nlr = over(fnr, tnr);
  &&& m[skey("tp"@)] == V::U(tp) && m[skey("tn"@)] == V::U(tn) && m[skey("fp"@)] == V::U(fp) && m[skey("fn"@)] == V::U(fnn)
  &&& m[skey("tpr"@)] == tpr
  &&& m[skey("fpr"@)] == fpr
  &&& m[skey("tnr"@)] == tnr
  &&& m[skey("fnr"@)] == fnr
  &&& m[skey("precision"@)] == ppv
  &&& m[skey("false_omission_rate"@)] == fomr
  &&& m[skey("npv"@)] == npv
  &&& m[skey("fdr"@)] == fdr
  &&& m[skey("prevalence"@)] == q(tp + fnn, tp + fnn + fp + tn)
  &&& m[skey("acc"@)] == q(tp + tn, tp + fnn + fp + tn)
  &&& m[skey("threat_score"@)] == q(tp, tp + fnn + fp)
  &&& m[skey("plr"@)] == plr
  &&& m[skey("nlr"@)] == nlr
  &&& m[skey("dor"@)] == over(plr, nlr)
  &&& m[skey("informedness"@)] == minus_one(plus(tpr, tnr))
  &&& m[skey("markedness"@)] == less(ppv, fomr)
  &&& m[skey("prevalence_threshold"@)] == over(less(root(times(tpr, fpr)), fpr), less(tpr, fpr))
  &&& m[skey("balanced_accuracy"@)] == scaled(1real / 2real, plus(tpr, tnr))
  &&& m[skey("f1"@)] == over(scaled(2real, times(ppv, tpr)), plus(ppv, tpr))
  &&& m[skey("folkes_mallows_index"@)] == root(times(ppv, tpr))
  &&& m[skey("mcc"@)] == mcc_of(tpr, tnr, ppv, npv, fnr, fpr, fomr, fdr)
}

proof fn sqrt_is(x: real, y: real) requires y >= 0real, y * y == x ensures x >= 0real, rsqrt(x) == y
{ assert(x >= 0real) by(nonlinear_arith) requires y * y == x; rsqrt_def(x); let s = rsqrt(x);
  assert(s == y) by(nonlinear_arith) requires s >= 0real, y >= 0real, s * s == y * y; }
proof fn rate_rest(a: int, b: int) requires a + b > 0 ensures 1real - a as real / (a + b) as real == b as real / (a + b) as real
{ let (x, y, z) = (a as real, b as real, (a + b) as real); assert(x + y == z); assert(1real - x / z == y / z) by(nonlinear_arith) requires x + y == z, z > 0real; }
proof fn asc(x: real, y: real, z: real) ensures x * (y * z) == (x * y) * z { assert(x * (y * z) == (x * y) * z) by(nonlinear_arith); }
proof fn swap4(x: real, y: real, u: real, v: real) ensures (x * y) * (u * v) == (x * u) * (y * v)
{ asc(x * y, u, v); asc(x * u, y, v); assert((x * y) * u == (x * u) * y) by(nonlinear_arith); }
// the root of a product of four rates whose numerators pair up
proof fn root_rates(a: real, b: real, p: real, n: real, s: real, t: real) requires a >= 0real, b >= 0real, p > 0real, n > 0real, s > 0real, t > 0real
  ensures a / p * (b / n) * (a / s) * (b / t) >= 0real, p * n * s * t > 0real, rsqrt(p * n * s * t) > 0real, rsqrt(a / p * (b / n) * (a / s) * (b / t)) == a * b / rsqrt(p * n * s * t)
{ let d = p * n * s * t; assert(d > 0real) by(nonlinear_arith) requires d == p * n * s * t, p > 0real, n > 0real, s > 0real, t > 0real;
  rsqrt_def(d); let w = rsqrt(d); assert(w > 0real) by(nonlinear_arith) requires w >= 0real, w * w == d, d > 0real;
  let (e, f, g, h) = (a / p, b / n, a / s, b / t);
  assert(e * p == a) by(nonlinear_arith) requires e == a / p, p > 0real; assert(f * n == b) by(nonlinear_arith) requires f == b / n, n > 0real;
  assert(g * s == a) by(nonlinear_arith) requires g == a / s, s > 0real; assert(h * t == b) by(nonlinear_arith) requires h == b / t, t > 0real;
  let x = e * f * g * h; let y = a * b / w;
  assert(y * w == a * b) by(nonlinear_arith) requires y == a * b / w, w > 0real;
  assert(y >= 0real) by(nonlinear_arith) requires y * w == a * b, a >= 0real, b >= 0real, w > 0real;
  assert(x * d == (a * b) * (a * b)) by { asc(e * f, g, h); asc(p * n, s, t); swap4(e * f, g * h, p * n, s * t); swap4(e, f, p, n); swap4(g, h, s, t); }
  assert((y * y) * d == (a * b) * (a * b)) by { swap4(y, y, w, w); }
  assert(y * y == x) by(nonlinear_arith) requires (y * y) * d == x * d, d > 0real;
  sqrt_is(x, y); }
proof fn f1_counts(a: real, c: real, d: real) requires a > 0real, c >= 0real, d >= 0real
  ensures a / (a + d) + a / (a + c) > 0real, 2real * (a / (a + d) * (a / (a + c))) / (a / (a + d) + a / (a + c)) == 2real * a / (2real * a + d + c)
{ let (s, p) = (a + d, a + c); let (x, y, k) = (a / s, a / p, s + p);
  assert(x * s == a) by(nonlinear_arith) requires x == a / s, s > 0real; assert(y * p == a) by(nonlinear_arith) requires y == a / p, p > 0real;
  assert(x > 0real) by(nonlinear_arith) requires x * s == a, a > 0real, s > 0real; assert(y > 0real) by(nonlinear_arith) requires y * p == a, a > 0real, p > 0real;
  let e = x * y; assert(e * (s + p) == a * (x + y)) by(nonlinear_arith) requires x * s == a, y * p == a, e == x * y;
  let v = x + y; let z = 2real * e / v; assert(z * v == 2real * e) by(nonlinear_arith) requires z == 2real * e / v, v > 0real;
  assert((z * k) * v == (2real * a) * v) by(nonlinear_arith) requires z * v == 2real * e, e * k == a * v;
  assert(z * k == 2real * a) by(nonlinear_arith) requires (z * k) * v == (2real * a) * v, v > 0real;
  assert(z == 2real * a / k) by(nonlinear_arith) requires z * k == 2real * a, k > 0real; }
proof fn odds(a: real, b: real, c: real, d: real, p: real, n: real) requires a > 0real, b > 0real, c > 0real, d > 0real, p > 0real, n > 0real
  ensures d / n > 0real, b / n > 0real, c / p > 0real, c / p / (b / n) > 0real, a / p / (d / n) / (c / p / (b / n)) == a * b / (d * c)
{ let (tpr, fpr, fnr, tnr) = (a / p, d / n, c / p, b / n);
  assert(fpr > 0real) by(nonlinear_arith) requires fpr == d / n, d > 0real, n > 0real; assert(tnr > 0real) by(nonlinear_arith) requires tnr == b / n, b > 0real, n > 0real;
  assert(fnr > 0real) by(nonlinear_arith) requires fnr == c / p, c > 0real, p > 0real;
  let (plr, nlr) = (tpr / fpr, fnr / tnr); assert(nlr > 0real) by(nonlinear_arith) requires nlr == fnr / tnr, fnr > 0real, tnr > 0real;
  let dor = plr / nlr; assert(dor * nlr == plr) by(nonlinear_arith) requires dor == plr / nlr, nlr > 0real;
  assert(plr * fpr == tpr) by(nonlinear_arith) requires plr == tpr / fpr, fpr > 0real; assert(nlr * tnr == fnr) by(nonlinear_arith) requires nlr == fnr / tnr, tnr > 0real;
  assert(tpr * p == a) by(nonlinear_arith) requires tpr == a / p, p > 0real; assert(fpr * n == d) by(nonlinear_arith) requires fpr == d / n, n > 0real;
  assert(fnr * p == c) by(nonlinear_arith) requires fnr == c / p, p > 0real; assert(tnr * n == b) by(nonlinear_arith) requires tnr == b / n, n > 0real;
  assert(dor * (fnr * fpr) == tpr * tnr) by { let x = dor * nlr; asc(dor, nlr * tnr, fpr); asc(dor, nlr, tnr); assert((x * tnr) * fpr == (x * fpr) * tnr) by(nonlinear_arith); }
  assert(dor * (c * d) == a * b) by { swap4(fnr, fpr, p, n); asc(dor, fnr * fpr, p * n); swap4(tpr, tnr, p, n); }
  let cd = d * c; let ab = a * b; assert(cd > 0real) by(nonlinear_arith) requires cd == d * c, c > 0real, d > 0real; assert(c * d == cd) by(nonlinear_arith) requires cd == d * c;
  assert(dor == ab / cd) by(nonlinear_arith) requires dor * cd == ab, cd > 0real; }
pub open spec fn mcc_of(tpr: V, tnr: V, ppv: V, npv: V, fnr: V, fpr: V, fomr: V, fdr: V) -> V { less(root(times(times(times(tpr, tnr), ppv), npv)), root(times(times(times(fnr, fpr), fomr), fdr))) }
proof fn phi_counts(a: real, b: real, c: real, d: real, p: real, n: real, s: real, t: real)
  requires a >= 0real, b >= 0real, c >= 0real, d >= 0real, p > 0real, n > 0real, s > 0real, t > 0real
  ensures rsqrt(p * n * s * t) > 0real, mcc_of(V::F(a / p), V::F(b / n), V::F(a / s), V::F(b / t), V::F(c / p), V::F(d / n), V::F(c / t), V::F(d / s)) == V::F((a * b - c * d) / rsqrt(p * n * s * t))
{ assert(mcc_two(a / p, b / n, a / s, b / t, c / p, d / n, c / t, d / s, a * b, c * d, p * n * s * t)) by { mcc_parts(a, b, c, d, p, n, s, t); }
  mcc_join(a / p, b / n, a / s, b / t, c / p, d / n, c / t, d / s, a * b, c * d, p * n * s * t); }
spec fn mcc_two(e: real, f: real, g: real, h: real, i: real, j: real, k: real, l: real, ab: real, cd: real, w: real) -> bool { e * f * g * h >= 0real && i * j * k * l >= 0real && rsqrt(w) > 0real && rsqrt(e * f * g * h) == ab / rsqrt(w) && rsqrt(i * j * k * l) == cd / rsqrt(w) }
proof fn mcc_parts(a: real, b: real, c: real, d: real, p: real, n: real, s: real, t: real)
  requires a >= 0real, b >= 0real, c >= 0real, d >= 0real, p > 0real, n > 0real, s > 0real, t > 0real
  ensures mcc_two(a / p, b / n, a / s, b / t, c / p, d / n, c / t, d / s, a * b, c * d, p * n * s * t)
{ assert(a >= 0real); assert(b >= 0real); assert(c >= 0real); assert(d >= 0real); assert(p > 0real); assert(n > 0real); assert(s > 0real); assert(t > 0real);
  root_rates(a, b, p, n, s, t); root_rates(c, d, p, n, t, s); assert(p * n * t * s == p * n * s * t) by(nonlinear_arith); }
proof fn mcc_join(e: real, f: real, g: real, h: real, i: real, j: real, k: real, l: real, ab: real, cd: real, w: real) requires mcc_two(e, f, g, h, i, j, k, l, ab, cd, w)
  ensures mcc_of(V::F(e), V::F(f), V::F(g), V::F(h), V::F(i), V::F(j), V::F(k), V::F(l)) == V::F((ab - cd) / rsqrt(w))
{ reveal(times); reveal(root); reveal(less); let r = rsqrt(w); assert(ab / r - cd / r == (ab - cd) / r) by(nonlinear_arith) requires r > 0real; }
// with no empty row or column in the table, the reported coefficient is Matthews' (the correlation of the two labels),
// F1 is 2 tp / (2 tp + fp + fn), and the odds ratio of a table without zeros is tp tn / (fp fn)
pub proof fn phi(m: Map<int, V>, tn: int, fp: int, fnn: int, tp: int)
  requires table(m, tn, fp, fnn, tp), tn >= 0, fp >= 0, fnn >= 0, tp >= 0, tp + fnn > 0, fp + tn > 0, tp + fp > 0, fnn + tn > 0
  ensures rsqrt((tp + fnn) as real * (fp + tn) as real * (tp + fp) as real * (fnn + tn) as real) > 0real,
    m[skey("mcc"@)] == V::F((tp as real * tn as real - fnn as real * fp as real) / rsqrt((tp + fnn) as real * (fp + tn) as real * (tp + fp) as real * (fnn + tn) as real)),
    tp > 0 ==> m[skey("f1"@)] == V::F(2real * tp as real / (2real * tp as real + fp as real + fnn as real)),
    tp > 0 && tn > 0 && fp > 0 && fnn > 0 ==> m[skey("dor"@)] == V::F((tp as real * tn as real) / (fp as real * fnn as real))
{ reveal(q); reveal(one_less); reveal(times); reveal(plus); reveal(scaled); reveal(over);
  rate_rest(fp, tn); rate_rest(fnn, tn); rate_rest(tp, fnn); rate_rest(tp, fp);
  let (a, b, c, d) = (tp as real, tn as real, fnn as real, fp as real);
  let (p, n, s, t) = ((tp + fnn) as real, (fp + tn) as real, (tp + fp) as real, (fnn + tn) as real);
  phi_counts(a, b, c, d, p, n, s, t);
  if tp > 0 { assert(s == a + d && p == a + c); f1_counts(a, c, d); }
  if tp > 0 && tn > 0 && fp > 0 && fnn > 0 { odds(a, b, c, d, p, n); } }
//@fn file=num_ext/tp_fp.rs path=pl_binary_confusion_matrix ret=r stages=with_columns,with_column,select,collect
//@spec
requires inputs.len() >= 1, isu(inputs@[0]), uvals(inputs@[0]).len() <= u32::MAX
ensures r is Ok, ({ let s = uvals(inputs@[0]); let n = s.len() as int;
  table(frame(r->Ok_0).val, cnt(s, 0, n) as int, cnt(s, 1, n) as int, cnt(s, 2, n) as int, cnt(s, 3, n) as int) })
//@at fn.start
proof { vx_keys(); on_floats(); on_counts(); reveal_with_fuel(ins, 27); reveal_with_fuel(insc, 6); let s = uvals(inputs@[0]); cnt_sum(s, s.len() as int); }
let ghost (tn_, fp_, fnn_, tp_) = (cnt(uvals(inputs@[0]), 0, uvals(inputs@[0]).len() as int) as int, cnt(uvals(inputs@[0]), 1, uvals(inputs@[0]).len() as int) as int, cnt(uvals(inputs@[0]), 2, uvals(inputs@[0]).len() as int) as int, cnt(uvals(inputs@[0]), 3, uvals(inputs@[0]).len() as int) as int);
let ghost tpr_ = q(tp_, tp_ + fnn_); let ghost fpr_ = q(fp_, fp_ + tn_); let ghost ppv_ = q(tp_, tp_ + fp_); let ghost for_ = q(fnn_, fnn_ + tn_);
//@at let.df.0
proof { let m = df@.val; assert(at(m, skey("tp"@)) == V::U(tp_) && at(m, skey("tn"@)) == V::U(tn_) && at(m, skey("fp"@)) == V::U(fp_) && at(m, skey("fn"@)) == V::U(fnn_)); }
//@at let.__c0.0
proof { let m = __c0@.val; assert(at(m, skey("tp"@)) == V::U(tp_) && at(m, skey("tn"@)) == V::U(tn_) && at(m, skey("fp"@)) == V::U(fp_) && at(m, skey("fn"@)) == V::U(fnn_) && at(m, skey("p"@)) == V::U(tp_ + fnn_) && at(m, skey("n"@)) == V::U(fp_ + tn_)); }
//@at let.__c1.0
proof { let m = __c1@.val; assert(at(m, skey("tpr"@)) == tpr_); assert(at(m, skey("fpr"@)) == fpr_); assert(at(m, skey("precision"@)) == ppv_); assert(at(m, skey("false_omission_rate"@)) == for_); 
  assert(at(m, skey("tp"@)) == V::U(tp_) && at(m, skey("tn"@)) == V::U(tn_) && at(m, skey("fp"@)) == V::U(fp_) && at(m, skey("fn"@)) == V::U(fnn_) && at(m, skey("p"@)) == V::U(tp_ + fnn_) && at(m, skey("n"@)) == V::U(fp_ + tn_)); }
//@at let.__c2.0
proof { let m = __c2@.val; assert(at(m, skey("fnr"@)) == one_less(tpr_)); assert(at(m, skey("tnr"@)) == one_less(fpr_)); assert(at(m, skey("npv"@)) == one_less(for_)); assert(at(m, skey("fdr"@)) == one_less(ppv_));
  assert(at(m, skey("tpr"@)) == tpr_ && at(m, skey("fpr"@)) == fpr_ && at(m, skey("precision"@)) == ppv_ && at(m, skey("false_omission_rate"@)) == for_ && at(m, skey("prevalence"@)) == q(tp_ + fnn_, tp_ + fnn_ + fp_ + tn_) && at(m, skey("threat_score"@)) == q(tp_, tp_ + fnn_ + fp_)); }
//@at let.__c3.0
proof { let m = __c3@.val; let tnr = one_less(fpr_); let fnr = one_less(tpr_); let npv = one_less(for_); let fdr = one_less(ppv_);
  assert(at(m, skey("acc"@)) == q(tp_ + tn_, tp_ + fnn_ + fp_ + tn_));
  assert(at(m, skey("plr"@)) == over(tpr_, fpr_)); assert(at(m, skey("nlr"@)) == over(fnr, tnr));
  assert(at(m, skey("markedness"@)) == less(ppv_, for_)); 
  assert(at(m, skey("balanced_accuracy"@)) == scaled(1real / 2real, plus(tpr_, tnr)));
  assert(at(m, skey("f1"@)) == over(scaled(2real, times(ppv_, tpr_)), plus(ppv_, tpr_)));
  assert(at(m, skey("folkes_mallows_index"@)) == root(times(ppv_, tpr_)));
  assert(at(m, skey("prevalence_threshold"@)) == over(less(root(times(tpr_, fpr_)), fpr_), less(tpr_, fpr_)));
  assert(at(m, skey("mcc"@)) == less(root(times(times(times(tpr_, tnr), ppv_), npv)), root(times(times(times(fnr, fpr_), for_), fdr))));
  }
//@at let.__c4.0
proof { let m = __c4@.val; let tnr = one_less(fpr_); let fnr = one_less(tpr_); let npv = one_less(for_); let fdr = one_less(ppv_);
  assert(at(m, skey("dor"@)) == over(over(tpr_, fpr_), over(fnr, tnr))); }
//@at let.__c5.0
proof { assert(table(__c5@.val, tn_, fp_, fnn_, tp_)); }
//@end
}
fn main(){}
