//@soft
//@include prelude_real.rs
//@include cexpr.rs
//@default types=f64:R strip=R parcols=1
verus!{
// ---- groups of the rows without a missing value, in two columns: label and target ----
pub open spec fn kv() -> int { skey("value"@) }
pub open spec fn kt() -> int { skey("target"@) }
pub open spec fn two(a: Seq<Option<real>>, t: Seq<Option<real>>) -> Fr { Fr { n: a.len(), cols: Map::empty().insert(kv(), a).insert(kt(), t) } }
pub open spec fn data(a: Seq<Option<real>>, t: Seq<Option<real>>) -> Fr { present(two(a, t)) }
pub open spec fn ks(d: Fr) -> Seq<Option<real>> { keys(d.cols[kv()]) }
pub open spec fn hits(d: Fr, g: int) -> Seq<Option<real>> { pick(d.cols[kt()], d.cols[kv()], ks(d)[g], d.n as int) }
pub open spec fn goods(d: Fr, g: int) -> real { osum(hits(d, g), hits(d, g).len() as int) }
pub open spec fn cnt(d: Fr, g: int) -> real { hits(d, g).len() as real }
pub open spec fn c_goods(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(goods(d, g))) }
pub open spec fn c_cnt(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(cnt(d, g))) }
pub open spec fn tot(c: Seq<Option<real>>) -> real { osum(c, c.len() as int) }
// share of all the events, and of all the non-events, that fall in a group, with one added to every count
pub open spec fn gp(d: Fr, g: int) -> real { (goods(d, g) + 1real) / (tot(c_goods(d)) + 2real) }
pub open spec fn bp(d: Fr, g: int) -> real { (cnt(d, g) - goods(d, g) + 1real) / (tot(c_cnt(d)) - tot(c_goods(d)) + 2real) }
pub open spec fn woe(d: Fr, g: int) -> real { rln(gp(d, g) / bp(d, g)) }
pub open spec fn iv(d: Fr, g: int) -> real { (gp(d, g) - bp(d, g)) * woe(d, g) }
pub open spec fn c_gp(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(gp(d, g))) }
pub open spec fn c_bp(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(bp(d, g))) }
pub open spec fn c_woe(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(woe(d, g))) }
pub open spec fn c_iv(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(iv(d, g))) }
pub open spec fn unit(t: Seq<Option<real>>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) is Some ==> 0real <= t[i]->0 <= 1real }
proof fn pick_len(c: Seq<Option<real>>, k: Seq<Option<real>>, v: Option<real>, n: int) requires 0 <= n <= c.len(), c.len() == k.len()
  ensures pick(c, k, v, n).len() == pick(k, k, v, n).len(), pick(c, k, v, n).len() <= n, full(c) ==> full(pick(c, k, v, n)), unit(c) ==> unit(pick(c, k, v, n)), (exists|i: int| 0 <= i < n && k[i] == v) ==> pick(c, k, v, n).len() > 0 decreases n
{ if n > 0 { pick_len(c, k, v, n - 1); if full(c) { assert(c[n - 1] is Some); } if (exists|i: int| 0 <= i < n && k[i] == v) && k[n - 1] != v { let i = choose|i: int| 0 <= i < n && k[i] == v; assert(i < n - 1); } } }
proof fn sum_unit(s: Seq<Option<real>>, n: int) requires 0 <= n <= s.len(), unit(s) ensures 0real <= osum(s, n) <= n as real decreases n { if n > 0 { sum_unit(s, n - 1); assert(s[n - 1] is Some ==> 0real <= s[n - 1]->0 <= 1real); } }
proof fn sum_between(s: Seq<Option<real>>, t: Seq<Option<real>>, n: int) requires 0 <= n <= s.len(), s.len() == t.len(), full(s), full(t), forall|i: int| 0 <= i < s.len() ==> 0real <= (#[trigger] s[i])->0 <= t[i]->0 ensures 0real <= osum(s, n) <= osum(t, n) decreases n { if n > 0 { sum_between(s, t, n - 1); assert(s[n - 1] is Some && t[n - 1] is Some); assert(0real <= s[n - 1]->0 <= t[n - 1]->0); } }
proof fn group(d: Fr, g: int) requires d.cols.dom().contains(kv()), d.cols.dom().contains(kt()), d.cols[kv()].len() == d.n, d.cols[kt()].len() == d.n, 0 <= g < ks(d).len()
  ensures hits(d, g).len() > 0, full(d.cols[kt()]) ==> full(hits(d, g)), unit(d.cols[kt()]) ==> 0real <= goods(d, g) <= cnt(d, g), grp(d, kv(), ks(d)[g]).n == hits(d, g).len(), grp(d, kv(), ks(d)[g]).cols[kt()] == hits(d, g), grp(d, kv(), ks(d)[g]).cols.dom().contains(kt())
{ let (c, k) = (d.cols[kt()], d.cols[kv()]); keys_of(k); assert(k.contains(ks(d)[g])); pick_len(c, k, ks(d)[g], d.n as int); pick_len(k, k, ks(d)[g], d.n as int); if unit(c) { sum_unit(hits(d, g), hits(d, g).len() as int); } }
proof fn shares(d: Fr) requires d.cols.dom().contains(kv()), d.cols.dom().contains(kt()), d.cols[kv()].len() == d.n, d.cols[kt()].len() == d.n, unit(d.cols[kt()])
  ensures 0real <= tot(c_goods(d)) <= tot(c_cnt(d)), forall|g: int| #![trigger ks(d)[g]] 0 <= g < ks(d).len() ==> gp(d, g) > 0real && bp(d, g) > 0real && gp(d, g) / bp(d, g) > 0real
{ assert forall|i: int| 0 <= i < ks(d).len() implies 0real <= (#[trigger] c_goods(d)[i])->0 <= c_cnt(d)[i]->0 by { group(d, i); }
  sum_between(c_goods(d), c_cnt(d), ks(d).len() as int);
  assert forall|g: int| 0 <= g < ks(d).len() implies gp(d, g) > 0real && bp(d, g) > 0real && gp(d, g) / bp(d, g) > 0real by { let a = ks(d)[g]; group(d, g); pos_div(goods(d, g) + 1real, tot(c_goods(d)) + 2real); pos_div(cnt(d, g) - goods(d, g) + 1real, tot(c_cnt(d)) - tot(c_goods(d)) + 2real); pos_div(gp(d, g), bp(d, g)); } }
proof fn pos_div(a: real, b: real) requires a > 0real, b > 0real ensures a / b > 0real { assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
proof fn e_gp(d: Fr) requires tot(c_goods(d)) >= 0real ensures vdiv(bin(V::C(c_goods(d)), V::S(1real), fadd()), bin(csum(V::C(c_goods(d))), V::S(2real), fadd())) == V::C(c_gp(d))
{ let v = vdiv(bin(V::C(c_goods(d)), V::S(1real), fadd()), bin(csum(V::C(c_goods(d))), V::S(2real), fadd())); assert(v is C); assert(v->C_0 =~= c_gp(d)); }
proof fn e_bp(d: Fr) requires 0real <= tot(c_goods(d)) <= tot(c_cnt(d)) ensures vdiv(bin(bin(V::C(c_cnt(d)), V::C(c_goods(d)), fsub()), V::S(1real), fadd()), bin(bin(csum(V::C(c_cnt(d))), csum(V::C(c_goods(d))), fsub()), V::S(2real), fadd())) == V::C(c_bp(d))
{ let v = vdiv(bin(bin(V::C(c_cnt(d)), V::C(c_goods(d)), fsub()), V::S(1real), fadd()), bin(bin(csum(V::C(c_cnt(d))), csum(V::C(c_goods(d))), fsub()), V::S(2real), fadd())); assert(v is C); assert(v->C_0 =~= c_bp(d)); }
proof fn e_woe(d: Fr) requires forall|g: int| #![trigger ks(d)[g]] 0 <= g < ks(d).len() ==> bp(d, g) > 0real && gp(d, g) / bp(d, g) > 0real ensures vln(vdiv(V::C(c_gp(d)), V::C(c_bp(d)))) == V::C(c_woe(d))
{ assert forall|g: int| 0 <= g < ks(d).len() implies (#[trigger] c_bp(d)[g])->0 != 0real by { let a = ks(d)[g]; }
  let q = vdiv(V::C(c_gp(d)), V::C(c_bp(d))); assert(q is C); let r = Seq::new(ks(d).len(), |g: int| Some(gp(d, g) / bp(d, g))); assert(q->C_0 =~= r);
  assert forall|g: int| 0 <= g < ks(d).len() implies (#[trigger] r[g])->0 > 0real by { let a = ks(d)[g]; }
  let v = vln(q); assert(v is C); assert(v->C_0 =~= c_woe(d)); }
proof fn e_iv(d: Fr) ensures bin(bin(V::C(c_gp(d)), V::C(c_bp(d)), fsub()), V::C(c_woe(d)), fmul()) == V::C(c_iv(d)) { let v = bin(bin(V::C(c_gp(d)), V::C(c_bp(d)), fsub()), V::C(c_woe(d)), fmul()); assert(v->C_0 =~= c_iv(d)); }
pub open spec fn okd(d: Fr) -> bool { d.cols.dom().contains(kv()) && d.cols.dom().contains(kt()) && d.cols[kv()].len() == d.n && d.cols[kt()].len() == d.n && full(d.cols[kt()]) }
proof fn data_ok(a: Seq<Option<real>>, t: Seq<Option<real>>) requires a.len() == t.len(), kv() != kt() ensures okd(data(a, t)), unit(t) ==> unit(data(a, t).cols[kt()])
{ present_of(two(a, t)); let d = data(a, t); assert(two(a, t).cols.dom().contains(kv()) && two(a, t).cols.dom().contains(kt())); if unit(t) { assert forall|i: int| 0 <= i < d.n implies 0real <= (#[trigger] d.cols[kt()][i])->0 <= 1real by { assert(t.contains(d.cols[kt()][i])); } } }
pub open spec fn is_woe(m: Fr, d: Fr) -> bool { m.n == ks(d).len() && m.cols =~= Map::empty().insert(kv(), ks(d)).insert(skey("good_pct"@), c_gp(d)).insert(skey("bad_pct"@), c_bp(d)).insert(skey("woe"@), c_woe(d)) }
pub open spec fn is_pair(m: Fr, k: Seq<Option<real>>, name: int, c: Seq<Option<real>>) -> bool { m.n == k.len() && m.cols =~= Map::empty().insert(kv(), k).insert(name, c) }
// ---- target encoding: the mean of a group pulled towards the mean of all by the size of the group ----
pub axiom fn exp_pos(x: real) ensures rexp(x) > 0real;
pub open spec fn alpha(n: real, least: real, smooth: real) -> real { 1real / (1real + rexp((-(n - least)) / smooth)) }
pub open spec fn gmean(d: Fr, g: int) -> real { goods(d, g) / cnt(d, g) }
pub open spec fn enc(d: Fr, g: int, mean: real, least: real, smooth: real) -> real { let a = alpha(cnt(d, g), least, smooth); a * gmean(d, g) + (1real - a) * mean }
pub open spec fn c_mean(d: Fr) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(gmean(d, g))) }
pub open spec fn c_alpha(d: Fr, least: real, smooth: real) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(alpha(cnt(d, g), least, smooth))) }
pub open spec fn c_enc(d: Fr, mean: real, least: real, smooth: real) -> Seq<Option<real>> { Seq::new(ks(d).len(), |g: int| Some(enc(d, g, mean, least, smooth))) }
proof fn e_alpha(d: Fr, least: real, smooth: real) requires smooth != 0real
  ensures vdiv(V::S(1real), bin(V::S(1real), vexp(vdiv(vneg(bin(V::C(c_cnt(d)), V::S(least), fsub())), V::S(smooth))), fadd())) == V::C(c_alpha(d, least, smooth))
{ let q = vdiv(vneg(bin(V::C(c_cnt(d)), V::S(least), fsub())), V::S(smooth)); assert(q is C); let r = Seq::new(ks(d).len(), |g: int| Some((-(cnt(d, g) - least)) / smooth)); assert(q->C_0 =~= r);
  let b = bin(V::S(1real), vexp(q), fadd()); assert(b is C); let s = Seq::new(ks(d).len(), |g: int| Some(1real + rexp((-(cnt(d, g) - least)) / smooth))); assert(b->C_0 =~= s);
  assert forall|g: int| 0 <= g < ks(d).len() implies (#[trigger] s[g])->0 != 0real by { exp_pos((-(cnt(d, g) - least)) / smooth); }
  let v = vdiv(V::S(1real), b); assert(v is C); assert(v->C_0 =~= c_alpha(d, least, smooth)); }
proof fn e_enc(d: Fr, mean: real, least: real, smooth: real)
  ensures bin(bin(V::C(c_alpha(d, least, smooth)), V::C(c_mean(d)), fmul()), bin(bin(V::S(1real), V::C(c_alpha(d, least, smooth)), fsub()), V::S(mean), fmul()), fadd()) == V::C(c_enc(d, mean, least, smooth))
{ let v = bin(bin(V::C(c_alpha(d, least, smooth)), V::C(c_mean(d)), fmul()), bin(bin(V::S(1real), V::C(c_alpha(d, least, smooth)), fsub()), V::S(mean), fmul()), fadd()); assert(v is C); assert(v->C_0 =~= c_enc(d, mean, least, smooth)); }
//@fn file=num_ext/woe_iv.rs path=get_woe_frame ret=res stages=lazy,drop_nulls,group_by,agg,select,with_column
//@spec
requires nums(*discrete_col).len() == nums(*target).len(), unit(nums(*target))
ensures res is Ok, fine(res->Ok_0), is_woe(res->Ok_0@, data(nums(*discrete_col), nums(*target)))
//@at fn.start
proof { vx_keys(); reveal_with_fuel(insc, 3); reveal_with_fuel(sel, 4); reveal_with_fuel(aggs, 3); data_ok(nums(*discrete_col), nums(*target)); shares(data(nums(*discrete_col), nums(*target))); }
//@at let.__c1.0
let ghost d = data(nums(*discrete_col), nums(*target));
proof { assert(__c0@.cols =~= two(nums(*discrete_col), nums(*target)).cols); assert(__c1@ == d);
 assert forall|g: int| 0 <= g < ks(d).len() implies sval(csum(V::C(#[trigger] hits(d, g)))) == Some(goods(d, g)) by { } }
//@at let.__c3.0
proof { assert forall|g: int| 0 <= g < ks(d).len() implies (#[trigger] grp(d, kv(), ks(d)[g])).n as real == cnt(d, g) && grp(d, kv(), ks(d)[g]).cols[kt()] == hits(d, g) && grp(d, kv(), ks(d)[g]).cols.dom().contains(kt()) by { group(d, g); }
 assert(__c3@.cols[kv()] == ks(d)); assert(__c3@.cols[skey("cnt"@)] =~= c_cnt(d)); assert(__c3@.cols[skey("goods"@)] =~= c_goods(d)); e_gp(d); e_bp(d); e_woe(d); }
//@at let.__c4.0
proof { assert(__c4@.cols[skey("good_pct"@)] == c_gp(d)); assert(__c4@.cols[skey("bad_pct"@)] == c_bp(d)); }
//@end
//@fn file=num_ext/woe_iv.rs path=pl_woe_discrete ret=res stages=select
//@spec
requires inputs.len() == 2, nums(inputs[0]).len() == nums(inputs[1]).len(), unit(nums(inputs[1]))
ensures res is Ok, is_pair(frame(res->Ok_0), ks(data(nums(inputs[0]), nums(inputs[1]))), skey("woe"@), c_woe(data(nums(inputs[0]), nums(inputs[1]))))
//@at fn.start
proof { vx_keys(); reveal_with_fuel(sel, 3); data_ok(nums(inputs[0]), nums(inputs[1])); }
//@end
//@fn file=num_ext/woe_iv.rs path=pl_iv ret=res stages=select
//@spec
requires inputs.len() == 2, nums(inputs[0]).len() == nums(inputs[1]).len(), unit(nums(inputs[1]))
ensures res is Ok, is_pair(frame(res->Ok_0), ks(data(nums(inputs[0]), nums(inputs[1]))), skey("iv"@), c_iv(data(nums(inputs[0]), nums(inputs[1]))))
//@at fn.start
proof { vx_keys(); reveal_with_fuel(sel, 3); data_ok(nums(inputs[0]), nums(inputs[1])); e_iv(data(nums(inputs[0]), nums(inputs[1]))); }
//@end
//@fn file=num_ext/target_encode.rs path=get_target_encode_frame ret=res stages=lazy,drop_nulls,group_by,agg,select,with_column
//@spec
requires nums(*discrete_col).len() == nums(*target).len(), smoothing@ != 0real
ensures res is Ok, fine(res->Ok_0), is_pair(res->Ok_0@, ks(data(nums(*discrete_col), nums(*target))), skey("to"@), c_enc(data(nums(*discrete_col), nums(*target)), target_mean@, min_samples_leaf@, smoothing@))
//@at fn.start
proof { vx_keys(); reveal_with_fuel(insc, 3); reveal_with_fuel(sel, 3); reveal_with_fuel(aggs, 3); data_ok(nums(*discrete_col), nums(*target)); }
//@at let.__c1.0
let ghost d = data(nums(*discrete_col), nums(*target));
proof { assert(__c0@.cols =~= two(nums(*discrete_col), nums(*target)).cols); assert(__c1@ == d); }
//@at let.__c3.0
proof { assert forall|g: int| 0 <= g < ks(d).len() implies (#[trigger] grp(d, kv(), ks(d)[g])).n as real == cnt(d, g) && grp(d, kv(), ks(d)[g]).cols[kt()] == hits(d, g) && grp(d, kv(), ks(d)[g]).cols.dom().contains(kt()) && full(hits(d, g)) && hits(d, g).len() > 0 by { group(d, g); }
 assert(__c3@.cols[kv()] == ks(d)); assert(__c3@.cols[skey("cnt"@)] =~= c_cnt(d)); assert(__c3@.cols[skey("cond_p"@)] =~= c_mean(d)); e_alpha(d, min_samples_leaf@, smoothing@); e_enc(d, target_mean@, min_samples_leaf@, smoothing@); }
//@end
//@struct path=TargetEncodeKwargs file=num_ext/target_encode.rs
//@fn file=num_ext/target_encode.rs path=pl_target_encode ret=res
//@spec
requires inputs.len() == 3, nums(inputs[0]).len() == nums(inputs[1]).len(), flt(inputs[2]), nums(inputs[2]).len() >= 1, nums(inputs[2])[0] is Some, kwargs.smoothing@ != 0real
ensures res is Ok, is_pair(frame(res->Ok_0), ks(data(nums(inputs[0]), nums(inputs[1]))), skey("to"@), c_enc(data(nums(inputs[0]), nums(inputs[1])), nums(inputs[2])[0]->0, kwargs.min_samples_leaf@, kwargs.smoothing@))
//@end
}
fn main(){}
