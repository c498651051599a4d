//@include prelude_real.rs
//@default types=T:R,f64:R strip=R methods=into=>vx_into,is_zero=>vx_is_zero calls=gamma::ln_gamma=>ln_gamma,normal::sf_unchecked=>sf_unchecked,beta::student_t_sf=>student_t_sf
verus!{
pub assume_specification<T, E>[core::result::Result::<T, E>::unwrap_or](s: core::result::Result<T, E>, d: T) -> (r: T) where E: core::marker::Destruct, T: core::marker::Destruct ensures r == (match s { Ok(v) => v, Err(_) => d });
#[verifier::external_body] fn vx_into(s: &str) -> String { unimplemented!() }
#[verifier::external_body] fn vx_is_zero(x: R) -> (r: bool) ensures r == (x@ == 0real) { unimplemented!() }
proof fn sqrt_pos(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, x > 0real <==> rsqrt(x) > 0real { rsqrt_def(x); let r = rsqrt(x); assert(r == 0real <==> r * r == 0real) by(nonlinear_arith); }
// regularized incomplete beta function
pub uninterp spec fn ibeta(a: real, b: real, x: real) -> real;
pub axiom fn ibeta_one(a: real, b: real) requires a > 0real, b > 0real ensures ibeta(a, b, 1real) == 1real;
pub uninterp spec fn nsf(x: real, m: real, s: real) -> real;
#[verifier::external_body] fn sf_unchecked(x: R, m: R, s: R) -> (r: R) requires s@ != 0real ensures r@ == nsf(x@, m@, s@) { unimplemented!() }
// the continued fraction is trusted; its guards are part of the contract
#[verifier::external_body] fn checked_beta_reg(a: R, b: R, x: R) -> (r: Result<R, String>)
  ensures (a@ > 0real && b@ > 0real && 0real <= x@ <= 1real) == r.is_ok(), r.is_ok() ==> r.unwrap()@ == ibeta(a@, b@, x@) && 0real <= r.unwrap()@ <= 1real { unimplemented!() }
pub open spec fn tsf(t: real, df: real) -> real { let ib = 0.5real * ibeta(df / 2real, 0.5real, df / (df + t * t)); if t <= 0real { 1real - ib } else { ib } }
proof fn unit_h(df: real, t: real) requires df > 0real ensures df + t * t > 0real, 0real <= df / (df + t * t) <= 1real, t == 0real ==> ibeta(df / 2real, 0.5real, df / (df + t * t)) == 1real
{ ibeta_one(df / 2real, 0.5real); if t == 0real { assert(t * t == 0real); assert(df / df == 1real) by(nonlinear_arith) requires df > 0real; } assert(t * t >= 0real) by(nonlinear_arith); let (d, q) = (df + t * t, df / (df + t * t)); assert(0real <= q <= 1real) by(nonlinear_arith) requires q == df / d, d >= df, df > 0real; }
//@fn file=stats_utils/beta.rs path=student_t_sf ret=r
//@spec
requires df@ > 0real
ensures r.is_ok(), r.unwrap()@ == tsf(x@, df@) && 0real <= r.unwrap()@ <= 1real, x@ > 0real ==> r.unwrap()@ <= 0.5real
//@at fn.start
proof { if df@ > 0real { unit_h(df@, x@); } }
//@end
//@fn file=stats_utils/beta.rs path=fisher_snedecor_sf ret=r
//@spec
requires freedom_1@ > 0real, freedom_2@ > 0real
ensures (x@ >= 0real) == r.is_ok(), r.is_ok() ==> r.unwrap()@ == ibeta(freedom_2@ / 2real, freedom_1@ / 2real, freedom_2@ / (freedom_1@ * x@ + freedom_2@)) && 0real <= r.unwrap()@ <= 1real
//@at let.t.0
proof { let (f, v) = (freedom_2@, t@); assert(v >= 0real) by(nonlinear_arith) requires v == freedom_1@ * x@, freedom_1@ > 0real, x@ >= 0real;
  let q = v / (v + f); let w = f / (v + f);
  assert(q + w == 1real) by(nonlinear_arith) requires q == v / (v + f), w == f / (v + f), f > 0real, v >= 0real;
  assert(0real <= q <= 1real) by(nonlinear_arith) requires q == v / (v + f), f > 0real, v >= 0real; }
//@end
// two-sample (equal sizes), Welch and one-sample t tests: statistic, degrees of freedom and tail
pub open spec fn tail(t: real, df: real, alt: Alternative) -> real { match alt { Alternative::Less => tsf(-t, df), Alternative::Greater => tsf(t, df), Alternative::TwoSided => 2real * tsf(rabs(t), df) } }
//@enum file=stats/mod.rs path=Alternative
//@fn file=stats/t_test.rs path=ttest_ind ret=r
//@spec
requires n@ > 1real, v1@ >= 0real, v2@ >= 0real
ensures v1@ + v2@ > 0real ==> (r.0@ == (m1@ - m2@) / rsqrt((v1@ + v2@) / n@) && r.1@ == tail(r.0@, 2real * n@ - 2real, alt))
//@at fn.start
proof { let (a, b) = (v1@ + v2@, n@); let q = a / b; assert(q >= 0real) by(nonlinear_arith) requires q == a / b, a >= 0real, b > 0real; assert(a > 0real ==> q > 0real) by(nonlinear_arith) requires q == a / b, b > 0real;
  sqrt_pos(q); }
//@at let.df.0
proof { unit_h(df@, t@); unit_h(df@, -t@); unit_h(df@, rabs(t@)); }
//@end
//@fn file=stats/t_test.rs path=ttest_1samp ret=r
//@spec
requires n@ > 1real, var@ >= 0real
ensures var@ > 0real ==> r.is_ok(), r.is_ok() ==> (r.unwrap().0@ == (mean@ - pop_mean@) / rsqrt(var@ / n@) && r.unwrap().1@ == tail(r.unwrap().0@, n@ - 1real, alt))
//@at fn.start
proof { let (a, b) = (var@, n@); let q = a / b; assert(q >= 0real) by(nonlinear_arith) requires q == a / b, a >= 0real, b > 0real; assert(a > 0real ==> q > 0real) by(nonlinear_arith) requires q == a / b, b > 0real;
  sqrt_pos(q); }
//@at let.df.0
proof { unit_h(df@, t@); unit_h(df@, -t@); unit_h(df@, rabs(t@)); }
//@end
pub open spec fn wdf(a: real, b: real, n1: real, n2: real) -> real { (a + b) * (a + b) / (a * a / (n1 - 1real) + b * b / (n2 - 1real)) }
//@fn file=stats/t_test.rs path=welch_t ret=r
//@spec
requires n1@ > 1real, n2@ > 1real, v1@ >= 0real, v2@ >= 0real
ensures v1@ + v2@ > 0real ==> r.is_ok(), r.is_ok() ==> (r.unwrap().0@ == (m1@ - m2@) / rsqrt(v1@ / n1@ + v2@ / n2@) && r.unwrap().1@ == tail(r.unwrap().0@, wdf(v1@ / n1@, v2@ / n2@, n1@, n2@), alt))
//@at let.vn2.0
proof { let (a, b) = (vn1@, vn2@); assert(a >= 0real && (v1@ > 0real ==> a > 0real)) by(nonlinear_arith) requires a == v1@ / n1@, n1@ > 0real, v1@ >= 0real;
  assert(b >= 0real && (v2@ > 0real ==> b > 0real)) by(nonlinear_arith) requires b == v2@ / n2@, n2@ > 0real, v2@ >= 0real; sqrt_pos(a + b); }
//@at let.t.0
proof { let (a, b, p, q) = (vn1@, vn2@, n1@ - 1real, n2@ - 1real); assert(a + b > 0real);
  let (u, w) = (a * a / p, b * b / q);
  assert(u >= 0real && (a > 0real ==> u > 0real)) by(nonlinear_arith) requires u == a * a / p, p > 0real, a >= 0real;
  assert(w >= 0real && (b > 0real ==> w > 0real)) by(nonlinear_arith) requires w == b * b / q, q > 0real, b >= 0real;
  let s = (a + b) * (a + b); assert(s > 0real) by(nonlinear_arith) requires s == (a + b) * (a + b), a + b > 0real;
  assert(s / (u + w) > 0real) by(nonlinear_arith) requires s > 0real, u + w > 0real; }
//@at let.df.0
proof { unit_h(df@, t@); unit_h(df@, -t@); unit_h(df@, rabs(t@)); }
//@end
}
fn main(){}
