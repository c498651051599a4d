//@soft
//@rlimit 20
//@include prelude_real.rs
//@include cexpr.rs
//@default types=f64:R strip=R parcols=1
verus!{
// ---- conditional entropy from the counts of the distinct pairs ----
pub open spec fn kx() -> int { skey("x"@) }
pub open spec fn kyy() -> int { skey("y"@) }
pub open spec fn two(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Fr { Fr { n: a.len(), cols: Map::empty().insert(kx(), a).insert(kyy(), b) } }
pub open spec fn prs(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<(Option<real>, Option<real>)> { keys2(a, b) }
pub open spec fn cnt(a: Seq<Option<real>>, b: Seq<Option<real>>, g: int) -> real { pick2(a, a, b, prs(a, b)[g], a.len() as int).len() as real }
pub open spec fn c_cnt(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(prs(a, b).len(), |g: int| Some(cnt(a, b, g))) }
pub open spec fn c_y(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(prs(a, b).len(), |g: int| prs(a, b)[g].1) }
pub open spec fn tot(c: Seq<Option<real>>) -> real { osum(c, c.len() as int) }
// rows whose y is that of pair g
pub open spec fn ycnt(a: Seq<Option<real>>, b: Seq<Option<real>>, g: int) -> real { tot(pick(c_cnt(a, b), c_y(a, b), c_y(a, b)[g], prs(a, b).len() as int)) }
pub open spec fn pxy(a: Seq<Option<real>>, b: Seq<Option<real>>, g: int) -> real { cnt(a, b, g) / tot(c_cnt(a, b)) }
pub open spec fn py(a: Seq<Option<real>>, b: Seq<Option<real>>, g: int) -> real { ycnt(a, b, g) / tot(c_cnt(a, b)) }
pub open spec fn c_pxy(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(prs(a, b).len(), |g: int| Some(pxy(a, b, g))) }
pub open spec fn c_py(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(prs(a, b).len(), |g: int| Some(py(a, b, g))) }
pub open spec fn terms(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(prs(a, b).len(), |g: int| Some(rln(pxy(a, b, g) / py(a, b, g)) * pxy(a, b, g))) }
pub open spec fn hxy(a: Seq<Option<real>>, b: Seq<Option<real>>) -> real { (-1real) * tot(terms(a, b)) }
proof fn some_row(a: Seq<Option<real>>, b: Seq<Option<real>>, v: (Option<real>, Option<real>), i: int, n: int) requires 0 <= i < n <= a.len(), a.len() == b.len(), (a[i], b[i]) == v ensures pick2(a, a, b, v, n).len() > 0 decreases n { if i < n - 1 { some_row(a, b, v, i, n - 1); } }
proof fn sum_pos(s: Seq<Option<real>>, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some && s[i]->0 > 0real ensures osum(s, n) >= 0real, n > 0 ==> osum(s, n) > 0real decreases n { if n > 0 { sum_pos(s, n - 1); assert(s[n - 1] is Some && s[n - 1]->0 > 0real); } }
proof fn pick_pos(c: Seq<Option<real>>, k: Seq<Option<real>>, i: int, n: int, v: Option<real>) requires 0 <= n <= c.len(), c.len() == k.len(), forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]) is Some && c[j]->0 > 0real ensures forall|j: int| 0 <= j < pick(c, k, v, n).len() ==> (#[trigger] pick(c, k, v, n)[j]) is Some && pick(c, k, v, n)[j]->0 > 0real, 0 <= i < n && k[i] == v ==> pick(c, k, v, n).len() > 0 decreases n
{ if n > 0 { pick_pos(c, k, i, n - 1, v); assert(c[n - 1] is Some && c[n - 1]->0 > 0real); } }
proof fn pos_div(a: real, b: real) requires a > 0real, b > 0real ensures a / b > 0real { assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
proof fn shares(a: Seq<Option<real>>, b: Seq<Option<real>>) requires a.len() == b.len(), a.len() > 0
  ensures tot(c_cnt(a, b)) > 0real, forall|g: int| #![trigger prs(a, b)[g]] 0 <= g < prs(a, b).len() ==> pxy(a, b, g) > 0real && py(a, b, g) > 0real && pxy(a, b, g) / py(a, b, g) > 0real
{ keys2_of(a, b); let (c, k, n) = (c_cnt(a, b), c_y(a, b), prs(a, b).len() as int);
  assert forall|g: int| 0 <= g < n implies (#[trigger] c[g]) is Some && c[g]->0 > 0real by { let v = prs(a, b)[g]; let i = choose|i: int| 0 <= i < a.len() && v == (#[trigger] a[i], b[i]); some_row(a, b, v, i, a.len() as int); }
  sum_pos(c, n);
  assert forall|g: int| #![trigger prs(a, b)[g]] 0 <= g < n implies pxy(a, b, g) > 0real && py(a, b, g) > 0real && pxy(a, b, g) / py(a, b, g) > 0real by { assert(c[g]->0 > 0real); pick_pos(c, k, g, n, k[g]); let p = pick(c, k, k[g], n); sum_pos(p, p.len() as int); pos_div(cnt(a, b, g), tot(c)); pos_div(ycnt(a, b, g), tot(c)); pos_div(pxy(a, b, g), py(a, b, g)); } }
proof fn e_pxy(a: Seq<Option<real>>, b: Seq<Option<real>>) requires tot(c_cnt(a, b)) > 0real ensures vdiv(V::C(c_cnt(a, b)), csum(V::C(c_cnt(a, b)))) == V::C(c_pxy(a, b))
{ let v = vdiv(V::C(c_cnt(a, b)), csum(V::C(c_cnt(a, b)))); assert(v is C); assert(v->C_0 =~= c_pxy(a, b)); }
pub open spec fn c_ycnt(a: Seq<Option<real>>, b: Seq<Option<real>>) -> Seq<Option<real>> { Seq::new(prs(a, b).len(), |g: int| Some(ycnt(a, b, g))) }
proof fn e_py(a: Seq<Option<real>>, b: Seq<Option<real>>) requires tot(c_cnt(a, b)) > 0real ensures vdiv(V::C(c_ycnt(a, b)), csum(V::C(c_cnt(a, b)))) == V::C(c_py(a, b))
{ let v = vdiv(V::C(c_ycnt(a, b)), csum(V::C(c_cnt(a, b)))); assert(v is C); assert(v->C_0 =~= c_py(a, b)); }
proof fn e_h(a: Seq<Option<real>>, b: Seq<Option<real>>) requires forall|g: int| #![trigger prs(a, b)[g]] 0 <= g < prs(a, b).len() ==> py(a, b, g) > 0real && pxy(a, b, g) / py(a, b, g) > 0real
  ensures bin(V::S(-1real), vdot(vln(vdiv(V::C(c_pxy(a, b)), V::C(c_py(a, b)))), V::C(c_pxy(a, b))), fmul()) == V::S(hxy(a, b))
{ assert forall|g: int| 0 <= g < prs(a, b).len() implies (#[trigger] c_py(a, b)[g])->0 != 0real by { let v = prs(a, b)[g]; }
  let q = vdiv(V::C(c_pxy(a, b)), V::C(c_py(a, b))); assert(q is C); let r = Seq::new(prs(a, b).len(), |g: int| Some(pxy(a, b, g) / py(a, b, g))); assert(q->C_0 =~= r);
  assert forall|g: int| 0 <= g < prs(a, b).len() implies (#[trigger] r[g])->0 > 0real by { let v = prs(a, b)[g]; }
  let l = vln(q); assert(l is C); let w = bin(l, V::C(c_pxy(a, b)), fmul()); assert(w is C); assert(w->C_0 =~= terms(a, b)); }
//@fn file=num_ext/cond_entropy.rs path=pl_conditional_entropy ret=res stages=lazy,group_by,agg,with_columns,select
//@spec
requires inputs.len() == 2, nums(inputs[0]).len() == nums(inputs[1]).len(), nums(inputs[0]).len() > 0
ensures res is Ok, nums(res->Ok_0) =~= seq![Some(hxy(nums(inputs[0]), nums(inputs[1])))]
//@at fn.start
let ghost (a, b) = (nums(inputs[0]), nums(inputs[1]));
proof { vx_keys(); reveal_with_fuel(insc, 3); reveal_with_fuel(sel, 3); reveal_with_fuel(aggs2, 2); shares(a, b); e_pxy(a, b); e_py(a, b); e_h(a, b); }
//@at let.__c0.0
proof { assert(__c0@.cols =~= two(a, b).cols); assert(__c0@ == two(a, b)); }
//@at let.__c2.0
proof { assert(__c2@.cols[skey("cnt"@)] =~= c_cnt(a, b)); assert(__c2@.cols[kyy()] =~= c_y(a, b));
 assert forall|g: int| 0 <= g < prs(a, b).len() implies (#[trigger] grp(__c2@, kyy(), c_y(a, b)[g])).cols[skey("cnt"@)] == pick(c_cnt(a, b), c_y(a, b), c_y(a, b)[g], prs(a, b).len() as int) && grp(__c2@, kyy(), c_y(a, b)[g]).cols.dom().contains(skey("cnt"@)) by { }
 assert(c_ycnt(a, b) =~= Seq::new(prs(a, b).len(), |i: int| sval(csum(V::C(grp(__c2@, kyy(), c_y(a, b)[i]).cols[skey("cnt"@)]))))); }
//@closure 0
-> (r: Series) ensures r == s.s
//@at let.__c3.0
proof { assert(__c3@.cols[skey("p(y)"@)] == c_py(a, b)); assert(__c3@.cols[skey("p(x,y)"@)] == c_pxy(a, b)); }
//@end
}
fn main(){}
