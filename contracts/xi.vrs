//@soft
//@include prelude_real.rs
//@include cexpr.rs
//@default types=f64:R strip=R parcols=1
verus!{
// ---- Chatterjee's coefficient: r and l are the counts of values at or below, and at or above, in the order of x ----
pub open spec fn jumps(r: Seq<Option<real>>, n: int) -> real decreases n { if n <= 1 { 0real } else { jumps(r, n - 1) + rabs(r[n - 1]->0 - r[n - 2]->0) } }
pub open spec fn spread(l: Seq<Option<real>>, size: real, n: int) -> real decreases n { if n <= 0 { 0real } else { spread(l, size, n - 1) + l[n - 1]->0 * (size - l[n - 1]->0) } }
pub open spec fn xi(x: Seq<Option<real>>, r: Seq<Option<real>>, l: Seq<Option<real>>) -> real { let n = x.len() as real; 1real - (n / 2real * jumps(perm(r, x), x.len() as int)) / spread(perm(l, x), n, x.len() as int) }
pub open spec fn fits(inputs: Seq<Series>) -> bool { let (x, r, l) = (nums(inputs[0]), nums(inputs[1]), nums(inputs[2])); inputs.len() == 3 && x.len() == r.len() && r.len() == l.len() && full(r) && full(l) && full(x) && spread(perm(l, x), x.len() as real, x.len() as int) != 0real }
proof fn sum_jumps(r: Seq<Option<real>>, d: Seq<Option<real>>, n: int) requires 0 <= n <= r.len(), d.len() == r.len(), full(r), forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) == (if i < 1 { None::<real> } else { Some(rabs(r[i]->0 - r[i - 1]->0)) }) ensures osum(d, n) == jumps(r, n) decreases n
{ if n > 0 { sum_jumps(r, d, n - 1); assert(r[n - 1] is Some); assert(d[n - 1] == (if n - 1 < 1 { None::<real> } else { Some(rabs(r[n - 1]->0 - r[n - 2]->0)) })); } }
proof fn sum_spread(l: Seq<Option<real>>, d: Seq<Option<real>>, size: real, n: int) requires 0 <= n <= l.len(), d.len() == l.len(), full(l), forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) == Some(l[i]->0 * (size - l[i]->0)) ensures osum(d, n) == spread(l, size, n) decreases n
{ if n > 0 { sum_spread(l, d, size, n - 1); assert(l[n - 1] is Some); assert(d[n - 1] == Some(l[n - 1]->0 * (size - l[n - 1]->0))); } }
pub open spec fn dif(r: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(r.len(), |i: int| if i < 1 { None } else { Some(rabs(r[i]->0 - r[i - 1]->0)) }) }
pub open spec fn prods(l: Seq<Option<real>>, size: real) -> Seq<Option<real>> { Seq::new(l.len(), |i: int| Some(l[i]->0 * (size - l[i]->0))) }
proof fn r_part(r: Seq<Option<real>>) requires full(r) ensures csum(cabs(lag(V::C(r), 1, NullBehavior::Ignore))) == V::S(jumps(r, r.len() as int))
{ let v = cabs(lag(V::C(r), 1, NullBehavior::Ignore)); assert(v is C); assert(v->C_0 =~= dif(r)) by { assert forall|i: int| 0 <= i < r.len() implies v->C_0[i] == dif(r)[i] by { assert(r[i] is Some); if i >= 1 { assert(r[i - 1] is Some); } } }; sum_jumps(r, dif(r), r.len() as int); }
proof fn l_part(l: Seq<Option<real>>, size: real) requires full(l) ensures csum(bin(V::C(l), bin(V::S(size), V::C(l), fsub()), fmul())) == V::S(spread(l, size, l.len() as int))
{ let v = bin(V::C(l), bin(V::S(size), V::C(l), fsub()), fmul()); assert(v is C); assert(v->C_0 =~= prods(l, size)) by { assert forall|i: int| 0 <= i < l.len() implies v->C_0[i] == prods(l, size)[i] by { assert(l[i] is Some); } }; sum_spread(l, prods(l, size), size, l.len() as int); }
proof fn full_perm(c: Seq<Option<real>>, k: Seq<Option<real>>) requires full(c), c.len() == k.len() ensures full(perm(c, k)) { order_of(k); assert forall|i: int| 0 <= i < c.len() implies (#[trigger] perm(c, k)[i]) is Some by { assert(0 <= order(k, i) < c.len()); } }
//@fn file=stats/xi_corr.rs path=_xi_corr ret=res stages=lazy,sort,select
//@spec
requires fits(inputs@)
ensures res is Ok, flt(res->Ok_0) && nums(res->Ok_0) =~= seq![Some(xi(nums(inputs[0]), nums(inputs[1]), nums(inputs[2])))]
//@at fn.start
proof { vx_keys(); reveal_with_fuel(insc, 4); reveal_with_fuel(sel, 2); let (x, r, l) = (nums(inputs[0]), nums(inputs[1]), nums(inputs[2])); full_perm(r, x); full_perm(l, x); r_part(perm(r, x)); l_part(perm(l, x), x.len() as real); }
//@at let.__c0.0
proof { let m = by(__c0@, skey("x_rk"@)); assert(m.cols[skey("r"@)] == perm(nums(inputs[1]), nums(inputs[0]))); assert(m.cols[skey("l"@)] == perm(nums(inputs[2]), nums(inputs[0]))); }
//@end
// survival function of the normal distribution
pub uninterp spec fn nsf(x: real, m: real, s: real) -> real;
#[verifier::external_body] fn sf_unchecked(x: R, m: R, s: R) -> (r: R) requires s@ != 0real ensures r@ == nsf(x@, m@, s@) { unimplemented!() }
//@fn file=stats/xi_corr.rs path=pl_xi_corr ret=res
//@spec
requires fits(inputs@)
ensures res is Ok, flt(res->Ok_0) && nums(res->Ok_0) =~= seq![Some(xi(nums(inputs[0]), nums(inputs[1]), nums(inputs[2])))]
//@end
//@fn file=stats/xi_corr.rs path=pl_xi_corr_w_p ret=res calls=normal::sf_unchecked=>sf_unchecked
//@spec
requires fits(inputs@)
ensures res is Ok, fields(res->Ok_0).len() == 2, ({ let f = fields(res->Ok_0); let n = nums(inputs[0]).len(); let c = xi(nums(inputs[0]), nums(inputs[1]), nums(inputs[2]));
  nums(f[0]) =~= seq![Some(c)] && rvals(f[1]).len() == 1 && (if n < 30 { nanp(rvals(f[1])[0]) } else { rvals(f[1])[0]@ == 2real * nsf(rsqrt(n as real) * rabs(c) / rsqrt(0.4real), 0real, 1real) }) })
//@at fn.start
proof { rsqrt_def(0.4real); let s = rsqrt(0.4real); assert(s != 0real) by(nonlinear_arith) requires s * s == 0.4real; }
//@end
}
fn main(){}
