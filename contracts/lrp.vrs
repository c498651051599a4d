//@include prelude_real.rs
//@include mat.rs
//@include cols.rs
//@include frame.rs
//@import lr.vrs
//@default types=T:R,f64:R,f32:R,Float64Type:R,Float32Type:R mats=1 parcols=1 strip=NullPolicy methods=into=>vx_into calls=String::from=>vx_str
verus!{
//@enum path=NullPolicy file=utils/mod.rs
impl Copy for NullPolicy {}
impl Clone for NullPolicy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Conv<LRSolverMethods> for &Name { open spec fn conv(self, b: LRSolverMethods) -> bool { true } }
pub uninterp spec fn pol(n: Name) -> Option<NullPolicy>;
impl NullPolicy { #[verifier::external_body] pub fn try_from(n: Name) -> (r: Result<NullPolicy, Name>) ensures (r is Ok) == (pol(n) is Some), r is Ok ==> r->Ok_0 == pol(n)->0 { unimplemented!() } }
// ---------------------------------------------------------------- from columns to the matrix
pub uninterp spec fn one_r() -> R;
pub axiom fn one_r_def() ensures one_r()@ == 1real;
pub open spec fn hh(xs: Seq<Series>) -> nat { vals(xs[0]).len() }
// target, features and, with an intercept, a column of ones
pub open spec fn raw(xs: Seq<Series>, bias: bool) -> Cols { if bias { scols(xs).push(konst(one_r(), hh(xs))) } else { scols(xs) } }
pub open spec fn fl(o: Option<R>, x: R) -> Option<R> { if o is None { Some(x) } else { o } }
// missing features replaced; the target stays as it is
pub open spec fn filled(c: Cols, x: R) -> Cols { Seq::new(c.len(), |k: int| if k == 0 { c[k] } else { Seq::new(c[k].len(), |i: int| fl(c[k][i], x)) }) }
pub open spec fn holes(c: Cols) -> bool { exists|k: int, i: int| 0 <= k < c.len() && 0 <= i < c[k].len() && (#[trigger] c[k][i]) is None }
pub open spec fn whole_row(xs: Seq<Series>, i: int) -> bool { forall|k: int| 0 <= k < xs.len() ==> (#[trigger] vals(xs[k])[i]) is Some }
pub open spec fn keep(p: NullPolicy, xs: Seq<Series>, i: int) -> bool { match p { NullPolicy::SKIP => whole_row(xs, i), NullPolicy::FILL(x) => vals(xs[0])[i] is Some, _ => true } }
pub open spec fn keeps(p: NullPolicy, xs: Seq<Series>) -> Seq<bool> { Seq::new(hh(xs), |i: int| keep(p, xs, i)) }
pub open spec fn patched(p: NullPolicy, xs: Seq<Series>, bias: bool) -> Cols { match p { NullPolicy::FILL(x) => filled(raw(xs, bias), x), NullPolicy::FILL_WINDOW(x) => filled(raw(xs, bias), x), _ => raw(xs, bias) } }
pub open spec fn prep(p: NullPolicy, xs: Seq<Series>, bias: bool) -> Cols { rows(patched(p, xs, bias), keeps(p, xs)) }
pub open spec fn height(p: NullPolicy, xs: Seq<Series>) -> int { kept(keeps(p, xs), hh(xs) as int).len() as int }
pub open spec fn drops(p: NullPolicy, xs: Seq<Series>) -> bool { exists|i: int| 0 <= i < hh(xs) && !#[trigger] keep(p, xs, i) }
pub open spec fn windowed(p: NullPolicy) -> bool { p is SKIP_WINDOW || p is FILL_WINDOW }
pub open spec fn someoff(m: Seq<Option<bool>>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]) == Some(false) }
pub open spec fn good(p: NullPolicy, xs: Seq<Series>) -> bool { distinct(snames(xs)) && level(scols(xs)) && hh(xs) > 0 && !(p is RAISE && holes(scols(xs))) && height(p, xs) >= xs.len() - 1 }
// the mask tells the rows that were dropped, or, for windows, that entries are missing
pub open spec fn masked(p: NullPolicy, xs: Seq<Series>, bias: bool, m: Seq<Option<bool>>) -> bool {
  &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Some
  &&& if windowed(p) { someoff(m) == holes(prep(p, xs, bias)) } else { someoff(m) == drops(p, xs) && (someoff(m) ==> m == Seq::new(hh(xs), |i: int| Some(keep(p, xs, i)))) }
}
pub proof fn kept_in(m: Seq<bool>, n: int) requires 0 <= n <= m.len() ensures kept(m, n).len() <= n, forall|i: int| 0 <= i < kept(m, n).len() ==> 0 <= #[trigger] kept(m, n)[i] < n && m[kept(m, n)[i]] decreases n { if n > 0 { kept_in(m, n - 1); } }
pub proof fn kept_all(m: Seq<bool>, n: int) requires 0 <= n <= m.len(), forall|i: int| 0 <= i < n ==> #[trigger] m[i] ensures kept(m, n) == Seq::new(n as nat, |i: int| i) decreases n { if n > 0 { kept_all(m, n - 1); } assert(kept(m, n) =~= Seq::new(n as nat, |i: int| i)); }
pub proof fn rows_all(c: Cols, m: Seq<bool>) requires forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i], forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).len() == m.len() ensures rows(c, m) == c
{ kept_all(m, m.len() as int); assert forall|k: int| 0 <= k < c.len() implies rows(c, m)[k] == #[trigger] c[k] by { assert(rows(c, m)[k] =~= c[k]); } assert(rows(c, m) =~= c); }
//@fn path=to_frame file=utils/mod.rs ret=r
//@spec
ensures (r is Ok) == (distinct(snames(inputs@)) && level(scols(inputs@))),
  r is Ok ==> r->Ok_0@.names == snames(inputs@) && r->Ok_0@.cols == scols(inputs@) && r->Ok_0@.h == (if inputs@.len() == 0 { 0 } else { hh(inputs@) })
//@loop 0
invariant __i0 <= __n0, __n0 == inputs.len(), __acc0@ == inputs@.take(__i0 as int),
decreases __n0 - __i0
//@at loop0.post
proof { assert(__acc0@ =~= inputs@); }
//@at loop0.end
proof { assert(inputs@.take(__p0 + 1) =~= inputs@.take(__p0 as int).push(inputs@[__p0 as int])); }
//@end
pub proof fn full_holes(c: Cols, i: int, k: int) requires 0 <= k < c.len(), 0 <= i < c[k].len(), c[k][i] is None ensures holes(c) { }
// nothing missing: nothing is replaced and no row is dropped
pub proof fn tidy(p: NullPolicy, xs: Seq<Series>, bias: bool) requires xs.len() >= 1, level(scols(xs)), !holes(scols(xs))
  ensures !drops(p, xs), prep(p, xs, bias) == raw(xs, bias), height(p, xs) == hh(xs), !holes(raw(xs, bias)), patched(p, xs, bias) == raw(xs, bias)
{
  let c = scols(xs); let r = raw(xs, bias);
  assert forall|k: int, i: int| 0 <= k < xs.len() && 0 <= i < hh(xs) implies (#[trigger] vals(xs[k])[i]) is Some by { assert(c[k].len() == c[0].len()); if vals(xs[k])[i] is None { assert(c[k][i] is None); } }
  assert forall|i: int| 0 <= i < hh(xs) implies #[trigger] keep(p, xs, i) by { }
  assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).len() == hh(xs) by { if k < xs.len() { assert(r[k] == c[k]); assert(c[k].len() == c[0].len()); } }
  assert forall|k: int, i: int| 0 <= k < r.len() && 0 <= i < hh(xs) implies (#[trigger] r[k][i]) is Some by { if k < xs.len() { assert(r[k] == c[k]); assert(vals(xs[k])[i] is Some); } }
  assert forall|x: R| #[trigger] filled(r, x) == r by { assert forall|k: int| 0 <= k < r.len() implies filled(r, x)[k] == #[trigger] r[k] by { assert(filled(r, x)[k] =~= r[k]); } assert(filled(r, x) =~= r); }
  rows_all(r, keeps(p, xs)); kept_all(keeps(p, xs), hh(xs) as int);
}
pub proof fn nodrop(p: NullPolicy, xs: Seq<Series>, bias: bool) requires xs.len() >= 1, level(scols(xs)), !drops(p, xs)
  ensures prep(p, xs, bias) == patched(p, xs, bias), height(p, xs) == hh(xs)
{
  let c = scols(xs); let q = patched(p, xs, bias); let r = raw(xs, bias);
  assert forall|i: int| 0 <= i < hh(xs) implies #[trigger] keep(p, xs, i) by { }
  assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).len() == hh(xs) by { if k < xs.len() { assert(r[k] == c[k]); assert(c[k].len() == c[0].len()); } }
  rows_all(q, keeps(p, xs)); kept_all(keeps(p, xs), hh(xs) as int);
}
// all columns but the first are filled
pub proof fn fills(f: Fr, e: Ex, y: Name, x: R)
  requires f.names.len() == f.cols.len(), f.cols.len() >= 1, f.names[0] == y, distinct(f.names), star(e), out_of(e) =~= seq![y], forall|c: Option<R>| #[trigger] cell(e, c) == fl(c, x)
  ensures with(f, e).cols == filled(f.cols, x), with(f, e).names == f.names, with(f, e).h == f.h
{
  let g = with(f, e);
  assert forall|k: int| 0 <= k < f.cols.len() implies g.cols[k] == filled(f.cols, x)[k] by { assert(out_of(e)[0] == y); if k > 0 { assert(f.names[0] != f.names[k]); assert(!out_of(e).contains(f.names[k])); assert(g.cols[k] =~= filled(f.cols, x)[k]); } else { assert(out_of(e).contains(f.names[0])); } }
  assert(g.cols =~= filled(f.cols, x));
}
pub open spec fn fills_y(e: Ex, y: Name, x: R) -> bool { star(e) && out_of(e) =~= seq![y] && forall|c: Option<R>| #[trigger] cell(e, c) == fl(c, x) }
pub proof fn fills_all(f: Fr, y: Name, x: R) requires f.names.len() == f.cols.len(), f.cols.len() >= 1, f.names[0] == y, distinct(f.names)
  ensures forall|e: Ex| fills_y(e, y, x) ==> (#[trigger] with(f, e)).cols == filled(f.cols, x) && with(f, e).names == f.names && with(f, e).h == f.h
{ assert forall|e: Ex| fills_y(e, y, x) implies (#[trigger] with(f, e)).cols == filled(f.cols, x) && with(f, e).names == f.names && with(f, e).h == f.h by { fills(f, e, y, x); } }
pub open spec fn ynull(xs: Seq<Series>) -> bool { exists|i: int| 0 <= i < vals(xs[0]).len() && (#[trigger] vals(xs[0])[i]) is None }
// which rows go, and what is still missing, policy by policy
pub proof fn policies(p: NullPolicy, xs: Seq<Series>, bias: bool) requires xs.len() >= 1, level(scols(xs))
  ensures p is SKIP ==> drops(p, xs) == holes(scols(xs)), p is FILL ==> drops(p, xs) == ynull(xs), !(p is SKIP) && !(p is FILL) ==> !drops(p, xs),
    holes(raw(xs, bias)) == holes(scols(xs)), p is FILL_WINDOW ==> holes(patched(p, xs, bias)) == ynull(xs),
    ynull(xs) ==> holes(scols(xs)),
{
  let c = scols(xs); let r = raw(xs, bias);
  assert forall|k: int| 0 <= k < xs.len() implies (#[trigger] c[k]).len() == hh(xs) && r[k] == c[k] by { assert(c[k].len() == c[0].len()); }
  if holes(c) { let (k, i) = choose|k: int, i: int| 0 <= k < c.len() && 0 <= i < c[k].len() && (#[trigger] c[k][i]) is None; full_holes(r, i, k); assert(vals(xs[k])[i] is None); if p is SKIP { assert(!whole_row(xs, i)); assert(!keep(p, xs, i)); } }
  if holes(r) { let (k, i) = choose|k: int, i: int| 0 <= k < r.len() && 0 <= i < r[k].len() && (#[trigger] r[k][i]) is None; if k < xs.len() { full_holes(c, i, k); } else { assert(bias); assert(r[k] == konst(one_r(), hh(xs))); assert(false); } }
  if ynull(xs) { let i = choose|i: int| 0 <= i < vals(xs[0]).len() && (#[trigger] vals(xs[0])[i]) is None; full_holes(c, i, 0); if p is FILL { assert(!keep(p, xs, i)); } if p is FILL_WINDOW { assert(patched(p, xs, bias)[0] == r[0]); full_holes(patched(p, xs, bias), i, 0); } }
  if drops(p, xs) { let i = choose|i: int| 0 <= i < hh(xs) && !#[trigger] keep(p, xs, i); if p is SKIP { let k = choose|k: int| 0 <= k < xs.len() && (#[trigger] vals(xs[k])[i]) is None; full_holes(c, i, k); } if p is FILL { assert(vals(xs[0])[i] is None); } }
  if p is FILL_WINDOW && holes(patched(p, xs, bias)) { let q = patched(p, xs, bias); let (k, i) = choose|k: int, i: int| 0 <= k < q.len() && 0 <= i < q[k].len() && (#[trigger] q[k][i]) is None; if k == 0 { assert(q[0] == r[0]); assert(vals(xs[0])[i] is None); } else { assert(q[k][i] == fl(r[k][i], p->FILL_WINDOW_0)); assert(false); } }
}
//@fn path=series_to_mat_for_lstsq file=num_ext/linear_regression.rs ret=r
//@spec
requires inputs@.len() >= 1
ensures (r is Ok) == good(null_policy, inputs@),
  r is Ok ==> r->Ok_0.0@ == fmx(prep(null_policy, inputs@, has_bias), height(null_policy, inputs@)) && masked(null_policy, inputs@, has_bias, r->Ok_0.1@)
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __acc0 == exists|k: int, i: int| 1 <= k <= __i0 && 0 <= i < vals(inputs@[k]).len() && (#[trigger] vals(inputs@[k])[i]) is None,
  __s1@ == inputs@.subrange(1, inputs@.len() as int), inputs@.len() >= 1,
decreases __n0 - __i0
//@at let.s.0
proof { assert(__s1@[__p0 as int] == inputs@[__p0 + 1]); assert(*s == inputs@[__p0 + 1]); }
//@at let.has_null.0
let ghost xs = inputs@; let ghost c0 = scols(xs);
proof {
  assert(has_null == holes(c0)) by {
    if holes(c0) { let (k, i) = choose|k: int, i: int| 0 <= k < c0.len() && 0 <= i < c0[k].len() && (#[trigger] c0[k][i]) is None; assert(vals(xs[k])[i] is None); assert(vals(inputs@[0]) == vals(xs[0])); }
    if y_has_null { let i = choose|i: int| 0 <= i < vals(inputs[0]).len() && (#[trigger] vals(inputs[0])[i]) is None; assert(c0[0][i] is None); }
    if has_null && !y_has_null { let (k, i) = choose|k: int, i: int| 1 <= k <= xs.len() - 1 && 0 <= i < vals(inputs@[k]).len() && (#[trigger] vals(inputs@[k])[i]) is None; assert(c0[k][i] is None); }
  }
}
//@at let.df.0
let ghost d0 = df@;
proof { frame_wf(df); }
//@loop 1
invariant __i1 <= __n1, __n1 == inputs.len(), nlen(__acc1) > 0, forall|k: int| 0 <= k < __i1 ==> nlen(__acc1) > nlen(#[trigger] nm(inputs@[k])),
decreases __n1 - __i1
//@at loop1.pre
proof { reveal_strlit("__bias__"); assert(nlen(__acc1) == 8); }
//@at set.df.0
proof { one_r_def(); assert forall|a: R| #[trigger] a@ == 1real implies a == one_r() by { r_ext(a, one_r()); } assert(!d0.names.contains(bias_name)); assert(df@.cols == raw(xs, has_bias)); }
//@at let.y_name.0
let ghost d1 = df@;
proof { frame_wf(df); if !has_bias { assert(df@.cols == raw(xs, has_bias)); } assert(d1.h == hh(xs)); assert(distinct(d1.names)); assert(d1.names[0] == nm(xs[0])); if !holes(c0) { tidy(null_policy, xs, has_bias); } if !drops(null_policy, xs) { nodrop(null_policy, xs, has_bias); } }
//@loop 2
invariant __i2 <= __n2, __n2 == __s2.len(), __s2@ == inputs@.subrange(1, inputs@.len() as int), inputs@ == xs, xs.len() >= 1, level(scols(xs)), __acc2@.len() == hh(xs),
  forall|i: int| 0 <= i < hh(xs) ==> (#[trigger] __acc2@[i]) == Some(forall|k: int| 0 <= k <= __i2 ==> (#[trigger] vals(xs[k])[i]) is Some),
decreases __n2 - __i2
//@at loop2.pre
proof { assert(vals(inputs@[0]) == vals(xs[0])); }
//@at let.s.2
proof { assert(__s2@[__p2 as int] == xs[__p2 + 1]); assert(scols(xs)[__p2 + 1].len() == scols(xs)[0].len()); }
//@at set.__acc2.0
proof { assert forall|i: int| 0 <= i < hh(xs) implies (#[trigger] __acc2@[i]) == Some(forall|k: int| 0 <= k <= __p2 + 1 ==> (#[trigger] vals(xs[k])[i]) is Some) by { assert(vals(xs[__p2 + 1])[i] is Some == (vals(*s)[i] is Some)); } }
//@at let.mask.0
proof { assert forall|i: int| 0 <= i < hh(xs) implies (#[trigger] mask@[i]) == Some(keep(null_policy, xs, i)) by { } assert(trues(mask@) =~= keeps(null_policy, xs)); }
//@at set.df.2
proof { fills_all(d1, *y_name, x); reveal_with_fuel(star, 5); reveal_with_fuel(out_of, 5); reveal_with_fuel(cell, 5); assert(df@.cols == patched(null_policy, xs, has_bias)); }
//@at set.df.4
proof { fills_all(d1, *y_name, x); reveal_with_fuel(star, 5); reveal_with_fuel(out_of, 5); reveal_with_fuel(cell, 5); assert(df@.cols == patched(null_policy, xs, has_bias)); }
//@at let.df.1
proof { policies(null_policy, xs, has_bias); assert(y_has_null == ynull(xs)); assert(trues(init_mask@) =~= keeps(null_policy, xs) || !(null_policy is FILL)); }
assert(df@.cols == prep(null_policy, xs, has_bias));
assert(df@.h == height(null_policy, xs));
proof {
  let p = null_policy; let gone = p is SKIP && holes(c0) || p is FILL && ynull(xs);
  if gone { assert forall|i: int| 0 <= i < hh(xs) implies (#[trigger] mask@[i]) == Some(keep(p, xs, i)) by { } assert(mask@ =~= Seq::new(hh(xs), |i: int| Some(keep(p, xs, i)))); let i = choose|i: int| 0 <= i < hh(xs) && !#[trigger] keep(p, xs, i); assert(mask@[i] == Some(false)); }
  else { assert(mask@.len() == 1); assert(mask@[0] == Some(!(windowed(p) && holes(prep(p, xs, has_bias))))); }
}
assert(masked(null_policy, xs, has_bias, mask@));
//@end
//@twin path=series_to_mat_for_lstsq_f32 file=num_ext/linear_regression_f32.rs
//@struct path=LstsqKwargs file=num_ext/linear_regression.rs
//@struct path=SWWLstsqKwargs file=num_ext/linear_regression.rs
//@enum path=LRMethods file=linalg/mod.rs
impl LRMethods {
//@fn path=LRMethods@From<(f64,f64)>::from file=linalg/mod.rs ret=r
//@spec
ensures (r is L1 || r is ElasticNet) == (value.0@ > 0real), (r is L2 || r is ElasticNet) == (value.1@ > 0real)
//@end
}
// ---------------------------------------------------------------- what the plugins hand back
pub open spec fn xm(m: Mx) -> Mx { blk(m, 0, m.r, 1, m.c) }
pub open spec fn ym(m: Mx) -> Mx { blk(m, 0, m.r, 0, 1) }
pub open spec fn cf(c: Seq<R>) -> F1 { |i: int| c[i]@ }
pub open spec fn wf(c: Seq<Option<R>>) -> F1 { |i: int| c[i]->0@ }
pub open spec fn is_coef(c: Seq<R>, w: F1, p: int) -> bool { c.len() == p && forall|i: int| 0 <= i < p ==> (#[trigger] c[i])@ == w(i) }
// least squares, weighted least squares, or coordinate descent, as the settings say
pub open spec fn fits(m: Mx, ws: Seq<Option<R>>, kw: LstsqKwargs, w: F1) -> bool {
  let x = xm(m).e; let y = ym(m).e; let p = m.c - 1;
  if kw.weighted { invertible(wgram(x, wf(ws), m.r), p) ==> ne(wgram(x, wf(ws), m.r), w, wmom(x, y, wf(ws), m.r), p) }
  else if kw.l1_reg@ > 0real { cd_res(x, y, w, m.r, p, kw.bias, kw.l1_reg@, kw.l2_reg@, kw.tol@, 2000) }
  else { regular(x, all(), 0, m.r, kw.l2_reg@, p, kw.bias) ==> solves(x, y, all(), 0, m.r, kw.l2_reg@, p, kw.bias, w) }
}
pub open spec fn data(s: Seq<Series>, weighted: bool) -> Seq<Series> { if weighted { s.subrange(1, s.len() as int) } else { s } }
pub open spec fn mat_of(p: NullPolicy, xs: Seq<Series>, bias: bool) -> Mx { fmx(prep(p, xs, bias), height(p, xs)) }
pub open spec fn lok(s: Seq<Series>, kw: LstsqKwargs) -> bool {
  &&& s.len() >= (if kw.weighted { 3int } else { 2int })
  &&& kw.weighted ==> forall|i: int| 0 <= i < vals(s[0]).len() ==> (#[trigger] vals(s[0])[i]) is Some
  &&& pol(kw.null_policy) is Some ==> !windowed(pol(kw.null_policy)->0) && (kw.l1_reg@ > 0real && !kw.weighted ==> kw.tol@ >= 0real && {
      let m = mat_of(pol(kw.null_policy)->0, s, kw.bias); forall|j: int| 0 <= j < pcols(m.c - 1, kw.bias) ==> #[trigger] cnorm(xm(m).e, m.r, j, m.r as real, kw.l2_reg@) != 0real })
}
pub open spec fn lgood(s: Seq<Series>, kw: LstsqKwargs) -> bool { let xs = data(s, kw.weighted); pol(kw.null_policy) is Some && good(pol(kw.null_policy)->0, xs) && (kw.weighted ==> vals(s[0]).len() == height(pol(kw.null_policy)->0, xs)) }
pub proof fn ne_w(g: F2, w: F1, v: F1, b: F1, p: int) requires ne(g, w, b, p), forall|t: int| 0 <= t < p ==> #[trigger] w(t) == v(t) ensures ne(g, v, b, p)
{ assert forall|i: int| 0 <= i < p implies #[trigger] mv(g, v, p)(i) == b(i) by { assert(mv(g, w, p)(i) == b(i)); sum_ext(|t: int| g(i, t) * w(t), |t: int| g(i, t) * v(t), p); } }
pub proof fn w_ext(x: F2, y: F2, w: F1, v: F1, n: int, p: int) requires forall|t: int| 0 <= t < n ==> #[trigger] w(t) == v(t)
  ensures forall|i: int, j: int| #[trigger] wgram(x, w, n)(i, j) == wgram(x, v, n)(i, j), forall|i: int| #[trigger] wmom(x, y, w, n)(i) == wmom(x, y, v, n)(i)
{
  assert forall|i: int, j: int| #[trigger] wgram(x, w, n)(i, j) == wgram(x, v, n)(i, j) by { sum_ext(|t: int| (x(t, i) * w(t)) * x(t, j), |t: int| (x(t, i) * v(t)) * x(t, j), n); }
  assert forall|i: int| #[trigger] wmom(x, y, w, n)(i) == wmom(x, y, v, n)(i) by { sum_ext(|t: int| (x(t, i) * w(t)) * y(t, 0), |t: int| (x(t, i) * v(t)) * y(t, 0), n); }
}
pub proof fn weights_fit(x: F2, y: F2, u: F1, v: F1, n: int, p: int, w: F1)
  requires forall|t: int| 0 <= t < n ==> #[trigger] u(t) == v(t), invertible(wgram(x, u, n), p) ==> ne(wgram(x, u, n), w, wmom(x, y, u, n), p)
  ensures invertible(wgram(x, v, n), p) ==> ne(wgram(x, v, n), w, wmom(x, y, v, n), p)
{
  w_ext(x, y, u, v, n, p);
  if invertible(wgram(x, v, n), p) { inv_ext(wgram(x, v, n), wgram(x, u, n), p); ne_ext(wgram(x, u, n), wgram(x, v, n), w, wmom(x, y, u, n), wmom(x, y, v, n), p); }
}
//@fn path=pl_lstsq file=num_ext/linear_regression.rs ret=r
//@spec
requires lok(inputs@, kwargs)
ensures (r is Ok) == lgood(inputs@, kwargs),
  r is Ok ==> sv::<Seq<R>>(r->Ok_0).len() == 1 && sv::<Seq<R>>(r->Ok_0)[0] is Some && {
    let xs = data(inputs@, kwargs.weighted); let m = mat_of(pol(kwargs.null_policy)->0, xs, kwargs.bias);
    exists|w: F1| #[trigger] fits(m, vals(inputs@[0]), kwargs, w) && is_coef(sv::<Seq<R>>(r->Ok_0)[0]->0, w, m.c - 1) }
//@closure 0
-> (o: PolarsError)
//@at let.data_for_matrix.0
let ghost xs = data(inputs@, kwargs.weighted); proof { assert(data_for_matrix@ == xs); }
//@at let.y.0
let ghost m0 = mat_of(null_policy, xs, has_bias); proof { mx_dims(mat); assert(mat@ == m0); assert(x@ == xm(m0)); assert(y@ == ym(m0)); assert(hh(xs) > 0); assert(m0.c == xs.len() + if has_bias { 1int } else { 0int }); }
//@at let.coeffs.0
proof {
  let (n, p, xe, ye, w) = (m0.r, m0.c - 1, xm(m0).e, ym(m0).e, lr::col(coeffs@.e));
  if kwargs.weighted { weights_fit(xe, ye, |t: int| somes(vals(inputs@[0]))[t]@, wf(vals(inputs@[0])), n, p, w); }
  else if kwargs.l1_reg@ > 0real { }
  else { if regular(xe, all(), 0, n, kwargs.l2_reg@, p, has_bias) { assert(solves(xe, ycol(ye, 0), all(), 0, n, kwargs.l2_reg@, p, has_bias, wcol(coeffs@.e, 0))); solves_y(xe, ycol(ye, 0), ye, n, kwargs.l2_reg@, p, has_bias, wcol(coeffs@.e, 0)); assert(wcol(coeffs@.e, 0) =~= w); } }
  assert(fits(m0, vals(inputs@[0]), kwargs, w));
}
//@end
//@twin path=pl_lstsq_f32 file=num_ext/linear_regression_f32.rs
// how many rows before this one were kept
pub open spec fn rank(m: Seq<bool>, i: int) -> int { kept(m, i).len() as int }
pub proof fn rank_all(m: Seq<bool>, i: int) requires 0 <= i <= m.len(), forall|j: int| 0 <= j < m.len() ==> #[trigger] m[j] ensures rank(m, i) == i { kept_all(m, i); }
pub proof fn rank_le(m: Seq<bool>, i: int, n: int) requires 0 <= i <= n <= m.len() ensures rank(m, i) <= rank(m, n), rank(m, i) <= i, rank(m, n) - rank(m, i) <= n - i, i < n && m[i] ==> rank(m, i) < rank(m, n) decreases n - i { if i < n { rank_le(m, i, n - 1); } else { kept_in(m, i); } }
pub open spec fn prow(a: Option<R>, b: Option<R>, m: Mx, keep: bool, j: int, w: F1) -> bool {
  a is Some && b is Some && if keep { a->0@ == dot(rw(xm(m).e, j), w, m.c - 1) && b->0@ == (ym(m).e)(j, 0) - a->0@ } else { nanp(a->0) && nanp(b->0) }
}
pub open spec fn preds(a: Seq<Option<R>>, b: Seq<Option<R>>, p: NullPolicy, xs: Seq<Series>, m: Mx, w: F1) -> bool {
  a.len() == hh(xs) && b.len() == hh(xs) && forall|i: int| 0 <= i < hh(xs) ==> prow(#[trigger] a[i], b[i], m, keep(p, xs, i), rank(keeps(p, xs), i), w)
}
pub proof fn nodrop_rank(p: NullPolicy, xs: Seq<Series>) requires !drops(p, xs) ensures forall|i: int| 0 <= i <= hh(xs) ==> #[trigger] rank(keeps(p, xs), i) == i, height(p, xs) == hh(xs)
{ let ks = keeps(p, xs); assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] by { assert(keep(p, xs, i)); } assert forall|i: int| 0 <= i <= hh(xs) implies #[trigger] rank(ks, i) == i by { rank_all(ks, i); } kept_all(ks, hh(xs) as int); }
//@fn path=pl_lstsq_pred file=num_ext/linear_regression.rs ret=r
//@spec
requires lok(inputs@, kwargs)
ensures (r is Ok) == lgood(inputs@, kwargs),
  r is Ok ==> fields(r->Ok_0).len() == 2 && {
    let p = pol(kwargs.null_policy)->0; let xs = data(inputs@, kwargs.weighted); let m = mat_of(p, xs, kwargs.bias);
    exists|w: F1| #[trigger] fits(m, vals(inputs@[0]), kwargs, w) && preds(vals(fields(r->Ok_0)[0]), vals(fields(r->Ok_0)[1]), p, xs, m, w) }
//@closure 0
-> (o: PolarsError)
//@at let.data_for_matrix.0
let ghost xs = data(inputs@, kwargs.weighted); proof { assert(data_for_matrix@ == xs); }
//@at let.x.0
let ghost m0 = mat_of(null_policy, xs, has_bias); proof { mx_dims(mat); assert(mat@ == m0); assert(x@ == xm(m0)); assert(y@ == ym(m0)); assert(hh(xs) > 0); assert(m0.c == xs.len() + if has_bias { 1int } else { 0int }); }
//@at let.coeffs.0
let ghost w = lr::col(coeffs@.e);
proof {
  let (n, p, xe, ye) = (m0.r, m0.c - 1, xm(m0).e, ym(m0).e);
  if kwargs.weighted { weights_fit(xe, ye, |t: int| somes(vals(inputs@[0]))[t]@, wf(vals(inputs@[0])), n, p, w); }
  else if kwargs.l1_reg@ > 0real { }
  else { if regular(xe, all(), 0, n, kwargs.l2_reg@, p, has_bias) { assert(solves(xe, ycol(ye, 0), all(), 0, n, kwargs.l2_reg@, p, has_bias, wcol(coeffs@.e, 0))); solves_y(xe, ycol(ye, 0), ye, n, kwargs.l2_reg@, p, has_bias, wcol(coeffs@.e, 0)); assert(wcol(coeffs@.e, 0) =~= w); } }
  assert(fits(m0, vals(inputs@[0]), kwargs, w));
}
//@at let.resid.1
let ghost ks = keeps(null_policy, xs);
proof {
  assert forall|j: int| 0 <= j < m0.r implies (#[trigger] pred@[j])@ == dot(rw(xm(m0).e, j), w, m0.c - 1) by { sum_ext(|t: int| (x@.e)(j, t) * (coeffs@.e)(t, 0), |t: int| rw(xm(m0).e, j)(t) * w(t), m0.c - 1); }
  assert forall|j: int| 0 <= j < m0.r implies (#[trigger] resid@[j])@ == (ym(m0).e)(j, 0) - pred@[j]@ by { }
}
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == ks, ks == keeps(null_policy, xs), ks.len() == hh(xs), i == rank(ks, __i0 as int), m0.r == rank(ks, ks.len() as int), pred@.len() == m0.r, resid@.len() == m0.r,
  p_builder.s().len() == __i0, r_builder.s().len() == __i0,
  forall|j: int| 0 <= j < m0.r ==> (#[trigger] pred@[j])@ == dot(rw(xm(m0).e, j), w, m0.c - 1), forall|j: int| 0 <= j < m0.r ==> (#[trigger] resid@[j])@ == (ym(m0).e)(j, 0) - pred@[j]@,
  forall|t: int| 0 <= t < __i0 ==> prow(#[trigger] p_builder.s()[t], r_builder.s()[t], m0, keep(null_policy, xs, t), rank(ks, t), w),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(mask@ == Seq::new(hh(xs), |i: int| Some(keep(null_policy, xs, i)))); assert(__s1@ =~= ks) by { assert forall|t: int| 0 <= t < ks.len() implies __s1@[t] == ks[t] by { assert(Some(__s1@[t]) == mask@[t]); } } }
//@at let.mm.0
proof { rank_le(ks, __p0 as int, ks.len() as int); }
//@at let.residue.0
proof {
  assert(!someoff(mask@)) by { if someoff(mask@) { let i = choose|i: int| 0 <= i < mask@.len() && (#[trigger] mask@[i]) == Some(false); } } assert(!drops(null_policy, xs));
  nodrop_rank(null_policy, xs);
}
//@at let.p.1
proof { slen_vals(p); }
//@at let.r.1
proof { slen_vals(r); assert(preds(vals(p), vals(r), null_policy, xs, m0, w)); }
//@end
//@twin path=pl_lstsq_pred_f32 file=num_ext/linear_regression_f32.rs
// ---------------------------------------------------------------- rolling and recursive fits
// the coefficients fitted on rows a..b and the prediction for row j
pub open spec fn frow(c: Option<Seq<R>>, v: Option<R>, m: Mx, a: int, b: int, j: int, l: real, bias: bool) -> bool {
  let (x, y) = (xm(m), ym(m)); let p = m.c - 1;
  c is Some && v is Some && c->0.len() == p && solves(x.e, y.e, okrow(x, y), a, b, l, p, bias, cf(c->0)) && v->0@ == dot(rw(x.e, j), cf(c->0), p)
}
pub open spec fn blank(c: Option<Seq<R>>, v: Option<R>) -> bool { c is None && v is None }
pub open spec fn roll_pol(p: NullPolicy) -> NullPolicy { match p { NullPolicy::SKIP => NullPolicy::SKIP_WINDOW, NullPolicy::FILL(x) => NullPolicy::FILL_WINDOW(x), _ => p } }
pub open spec fn skips(p: NullPolicy, xs: Seq<Series>, bias: bool) -> bool { windowed(p) && holes(prep(p, xs, bias)) }
pub open spec fn roll_row(c: Option<Seq<R>>, v: Option<R>, m: Mx, skip: bool, j: int, n: int, ms: int, l: real, bias: bool) -> bool {
  if j >= n - 1 && (skip ==> cnt(okrow(xm(m), ym(m)), j - n + 1, j + 1) >= ms) { frow(c, v, m, j - n + 1, j + 1, j, l, bias) } else { blank(c, v) }
}
pub open spec fn roll_all(c: Seq<Option<Seq<R>>>, v: Seq<Option<R>>, m: Mx, skip: bool, k: int, n: int, ms: int, l: real, bias: bool) -> bool {
  c.len() == k && v.len() == k && forall|j: int| 0 <= j < k ==> roll_row(#[trigger] c[j], v[j], m, skip, j, n, ms, l, bias)
}
pub open spec fn roll_ok(xs: Seq<Series>, kw: SWWLstsqKwargs) -> bool {
  xs.len() >= 2 && kw.n >= 1 && hh(xs) < usize::MAX && kw.n * (xs.len() + 1) <= usize::MAX && (pol(kw.null_policy) is Some ==> {
    let p = roll_pol(pol(kw.null_policy)->0); let m = mat_of(p, xs, kw.bias); let (x, y) = (xm(m), ym(m)); let n = kw.n as int;
    if skips(p, xs, kw.bias) { 1 <= kw.min_size <= kw.n && enough_ok(x.e, okrow(x, y), n, kw.min_size as int, m.r, kw.lambda@, m.c - 1, kw.bias) }
    else { (n <= m.r ==> forall|t: int| 0 <= t < n ==> #[trigger] okrow(x, y)(t)) && windows_ok(x.e, okrow(x, y), n, m.r, kw.lambda@, m.c - 1, kw.bias) }
  })
}
pub proof fn is_frow(c: Seq<R>, v: R, w: F2, pe: F2, m: Mx, a: int, b: int, j: int, l: real, bias: bool)
  requires c.len() == m.c - 1, forall|i: int| 0 <= i < m.c - 1 ==> (#[trigger] c[i])@ == w(i, 0), solves(xm(m).e, ym(m).e, okrow(xm(m), ym(m)), a, b, l, m.c - 1, bias, lr::col(w)),
    v@ == sum(|t: int| pe(0, t) * w(t, 0), m.c - 1), forall|t: int| #[trigger] pe(0, t) == (xm(m).e)(j, t)
  ensures frow(Some(c), Some(v), m, a, b, j, l, bias)
{
  let p = m.c - 1; let (x, y) = (xm(m), ym(m)); let ok = okrow(x, y);
  assert forall|t: int| 0 <= t < p implies #[trigger] lr::col(w)(t) == cf(c)(t) by { assert(c[t]@ == w(t, 0)); }
  ne_w(gram(x.e, ok, a, b, l, pcols(p, bias)), lr::col(w), cf(c), mom(x.e, y.e, ok, a, b), p);
  let (f, g) = (|t: int| pe(0, t) * w(t, 0), |t: int| rw(x.e, j)(t) * cf(c)(t));
  assert forall|t: int| 0 <= t < p implies #[trigger] f(t) == g(t) by { assert(c[t]@ == w(t, 0)); }
  sum_ext(f, g, p);
}
//@fn path=pl_rolling_lstsq file=num_ext/linear_regression.rs ret=r
//@spec
requires roll_ok(inputs@, kwargs)
ensures (r is Ok) == (pol(kwargs.null_policy) is Some && good(roll_pol(pol(kwargs.null_policy)->0), inputs@)),
  r is Ok ==> fields(r->Ok_0).len() == 2 && { let p = roll_pol(pol(kwargs.null_policy)->0);
    roll_all(sv::<Seq<R>>(fields(r->Ok_0)[0]), vals(fields(r->Ok_0)[1]), mat_of(p, inputs@, kwargs.bias), skips(p, inputs@, kwargs.bias), hh(inputs@) as int, kwargs.n as int, kwargs.min_size as int, kwargs.lambda@, kwargs.bias) }
//@closure 0
-> (o: PolarsError)
//@at fn.start
let ghost xs = inputs@; let ghost ms = kwargs.min_size as int; let ghost l = kwargs.lambda@;
//@at let.should_skip.0
let ghost m0 = mat_of(null_policy, xs, has_bias); let ghost skip = skips(null_policy, xs, has_bias);
proof { assert(mat@ == m0); mx_dims(mat); policies(null_policy, xs, has_bias); nodrop(null_policy, xs, has_bias); assert(hh(xs) > 0); assert(m0.r == hh(xs));
  assert(should_skip == skip) by { if windowed(null_policy) && someoff(mask@) { let i = choose|i: int| 0 <= i < mask@.len() && (#[trigger] mask@[i]) == Some(false); assert(mask@[i] == Some(false)); } } }
//@at let.y.0
proof { assert(x@ == xm(m0)); assert(y@ == ym(m0)); assert(m0.c == xs.len() + if has_bias { 1int } else { 0int }); 
  assert(n * (m0.c - 1) <= usize::MAX) by(nonlinear_arith) requires n * (xs.len() + 1) <= usize::MAX, m0.c - 1 <= xs.len() + 1, n >= 0 {} }
//@loop 0
invariant __i0 <= __n0, __n0 == m, m <= n - 1, roll_all(builder.s(), pred_builder.s(), m0, skip, __i0 as int, n as int, ms, l, has_bias),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == coeffs@.len(), m == n - 1 || __n1 == 0, n >= 1, coeffs@.len() == nwin(m0.r, n as int), skip, m0.c >= 2, x@ == xm(m0), m0.r < usize::MAX, roll_all(builder.s(), pred_builder.s(), m0, skip, m + __i1, n as int, ms, l, has_bias),
  forall|k: int| 0 <= k < coeffs@.len() ==> wcoef(#[trigger] coeffs@[k], xm(m0).e, ym(m0).e, okrow(xm(m0), ym(m0)), k, n as int, ms, l, m0.c - 1, has_bias),
decreases __n1 - __i1
//@at let.coefficients.0
let ghost j0 = m + __p1;
proof { assert(wcoef(coeffs@[__p1 as int], xm(m0).e, ym(m0).e, okrow(xm(m0), ym(m0)), __p1 as int, n as int, ms, l, m0.c - 1, has_bias)); }
//@at call.append_value.0
proof { is_frow(coef@, pred, coefficients@.e, row@.e, m0, j0 - n + 1, j0 + 1, j0, l, has_bias); }
//@loop 2
invariant __i2 <= __n2, __n2 == coeffs@.len(), m == n - 1 || __n2 == 0, n >= 1, coeffs@.len() == nwin(m0.r, n as int), !skip, m0.c >= 2, x@ == xm(m0), m0.r < usize::MAX, roll_all(builder.s(), pred_builder.s(), m0, skip, m + __i2, n as int, ms, l, has_bias),
  forall|k: int| 0 <= k < coeffs@.len() ==> (#[trigger] coeffs@[k])@.r == m0.c - 1 && coeffs@[k]@.c == 1 && solves(xm(m0).e, ym(m0).e, okrow(xm(m0), ym(m0)), k, k + n, l, m0.c - 1, has_bias, lr::col(coeffs@[k]@.e)),
decreases __n2 - __i2
//@at let.coefficients.1
let ghost j0 = m + __p2;
//@at call.append_value.1
proof { is_frow(coef@, pred, coefficients@.e, row@.e, m0, j0 - n + 1, j0 + 1, j0, l, has_bias); }
//@at let.pred_out.0
proof { assert(roll_all(coef_out@, pred_out@, m0, skip, hh(xs) as int, n as int, ms, l, has_bias)); assert forall|s: Series| true implies slen(s) == (#[trigger] sv::<R>(s)).len() by { slen_vals(s); } assert forall|s: Series| true implies slen(s) == (#[trigger] sv::<Seq<R>>(s)).len() by { slen_list(s, sv::<Seq<R>>(s).len()); } }
//@end
//@twin path=pl_rolling_lstsq_f32 file=num_ext/linear_regression_f32.rs
pub open spec fn rec_row(c: Option<Seq<R>>, v: Option<R>, m: Mx, kp: bool, k: int, n: int, l: real, bias: bool) -> bool { if kp && k >= n - 1 { frow(c, v, m, 0, k + 1, k, l, bias) } else { blank(c, v) } }
pub open spec fn rec_all(c: Seq<Option<Seq<R>>>, v: Seq<Option<R>>, m: Mx, ks: Seq<bool>, k: int, n: int, l: real, bias: bool) -> bool {
  c.len() == k && v.len() == k && forall|j: int| 0 <= j < k ==> rec_row(#[trigger] c[j], v[j], m, ks[j], rank(ks, j), n, l, bias)
}
pub open spec fn rec_ok(xs: Seq<Series>, kw: SWWLstsqKwargs) -> bool {
  xs.len() >= 2 && kw.n >= 1 && hh(xs) < usize::MAX && (pol(kw.null_policy) is Some ==> {
    let p = pol(kw.null_policy)->0; let m = mat_of(p, xs, kw.bias); let (x, y) = (xm(m), ym(m)); let n = kw.n as int;
    !windowed(p) && (n <= m.r ==> forall|t: int| 0 <= t < n ==> #[trigger] okrow(x, y)(t)) && grown_ok(x.e, okrow(x, y), n, m.r, kw.lambda@, m.c - 1, kw.bias)
  })
}
//@fn path=pl_recursive_lstsq file=num_ext/linear_regression.rs ret=r
//@spec
requires rec_ok(inputs@, kwargs)
ensures (r is Ok) == (pol(kwargs.null_policy) is Some && good(pol(kwargs.null_policy)->0, inputs@)),
  r is Ok ==> fields(r->Ok_0).len() == 2 && { let p = pol(kwargs.null_policy)->0;
    rec_all(sv::<Seq<R>>(fields(r->Ok_0)[0]), vals(fields(r->Ok_0)[1]), mat_of(p, inputs@, kwargs.bias), keeps(p, inputs@), hh(inputs@) as int, kwargs.n as int, kwargs.lambda@, kwargs.bias) }
//@letty i usize
//@closure 0
-> (o: PolarsError)
//@at fn.start
let ghost xs = inputs@; let ghost l = kwargs.lambda@;
//@at let.y.0
let ghost m0 = mat_of(null_policy, xs, has_bias); let ghost ks = keeps(null_policy, xs);
proof { assert(mat@ == m0); mx_dims(mat); assert(hh(xs) > 0); assert(x@ == xm(m0)); assert(y@ == ym(m0)); assert(m0.c == xs.len() + if has_bias { 1int } else { 0int }); assert(m0.r == rank(ks, ks.len() as int)); kept_in(ks, ks.len() as int); }
//@at let.has_nulls.0
proof { assert(has_nulls == drops(null_policy, xs)) by { if someoff(mask@) { let z = choose|z: int| 0 <= z < mask@.len() && (#[trigger] mask@[z]) == Some(false); assert(mask@[z] == Some(false)); } } if !has_nulls { nodrop_rank(null_policy, xs); assert forall|i: int| 0 <= i < hh(xs) implies #[trigger] ks[i] by { assert(keep(null_policy, xs, i)); } } else { assert(mask@ == Seq::new(hh(xs), |i: int| Some(keep(null_policy, xs, i)))); } }
//@at loop0.pre
proof { assert(__s1@ =~= ks) by { assert forall|t: int| 0 <= t < ks.len() implies __s1@[t] == ks[t] by { assert(Some(__s1@[t]) == mask@[t]); } } }
//@loop 0
invariant_except_break m == __i0, new_n == rank(ks, __i0 as int), new_n < n,
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == ks, n >= 1,
ensures m <= __n0, m == __n0 ==> rank(ks, m as int) < n, m < __n0 ==> ks[m as int] && rank(ks, m as int) == n - 1,
decreases __n0 - __i0
//@at loop1.pre
proof { assert forall|j: int| 0 <= j < m implies !(ks[j] && #[trigger] rank(ks, j) >= n - 1) by { rank_le(ks, j, m as int); } }
//@loop 1
invariant __i1 <= __n1, __n1 == m, m <= ks.len(), rec_all(builder.s(), pred_builder.s(), m0, ks, __i1 as int, n as int, l, has_bias), forall|j: int| 0 <= j < m ==> !(ks[j] && #[trigger] rank(ks, j) >= n - 1),
decreases __n1 - __i1
//@at loop2.pre
proof { assert(__s2@ =~= ks) by { assert forall|t: int| 0 <= t < ks.len() implies __s2@[t] == ks[t] by { assert(Some(__s2@[t]) == mask@[t]); } } }
//@loop 2
invariant __i2 <= __n2, __n2 == ks.len() - m, m <= ks.len(), __s2@ == ks, m < ks.len() ==> i + n - 1 == rank(ks, m + __i2), n >= 1, m0.r == rank(ks, ks.len() as int), m0.r <= ks.len(), ks.len() < usize::MAX, coeffs@.len() == nwin(m0.r, n as int), m0.c >= 2, x@ == xm(m0),
  rec_all(builder.s(), pred_builder.s(), m0, ks, m + __i2, n as int, l, has_bias),
  forall|k: int| 0 <= k < coeffs@.len() ==> (#[trigger] coeffs@[k])@.r == m0.c - 1 && coeffs@[k]@.c == 1 && solves(xm(m0).e, ym(m0).e, okrow(xm(m0), ym(m0)), 0, n + k, l, m0.c - 1, has_bias, lr::col(coeffs@[k]@.e)),
decreases __n2 - __i2
//@at let.should_keep.0
proof { rank_le(ks, m + __p2, ks.len() as int); }
//@at call.append_value.0
proof { is_frow(coef@, pred, coefficients@.e, row@.e, m0, 0, j + 1, j as int, l, has_bias); }
//@loop 3
invariant __i3 <= __n3, __n3 == m, m <= n - 1, m <= ks.len(), rec_all(builder.s(), pred_builder.s(), m0, ks, __i3 as int, n as int, l, has_bias), forall|j: int| 0 <= j <= ks.len() ==> #[trigger] rank(ks, j) == j,
decreases __n3 - __i3
//@loop 4
invariant __i4 <= __n4, __n4 == coeffs@.len(), m == n - 1 || __n4 == 0, n >= 1, m0.r == ks.len(), ks.len() < usize::MAX, coeffs@.len() == nwin(m0.r, n as int), m0.c >= 2, x@ == xm(m0), forall|j: int| 0 <= j <= ks.len() ==> #[trigger] rank(ks, j) == j, forall|j: int| 0 <= j < ks.len() ==> #[trigger] ks[j],
  rec_all(builder.s(), pred_builder.s(), m0, ks, m + __i4, n as int, l, has_bias),
  forall|k: int| 0 <= k < coeffs@.len() ==> (#[trigger] coeffs@[k])@.r == m0.c - 1 && coeffs@[k]@.c == 1 && solves(xm(m0).e, ym(m0).e, okrow(xm(m0), ym(m0)), 0, n + k, l, m0.c - 1, has_bias, lr::col(coeffs@[k]@.e)),
decreases __n4 - __i4
//@at call.append_value.1
proof { is_frow(coef@, pred, coefficients@.e, row@.e, m0, 0, n + __p4, m + __p4, l, has_bias); assert(rank(ks, m + __p4) == m + __p4); assert(ks[m + __p4]); }
//@at let.pred_out.0
proof { assert(rec_all(coef_out@, pred_out@, m0, ks, hh(xs) as int, n as int, l, has_bias)); assert forall|s: Series| true implies slen(s) == (#[trigger] sv::<R>(s)).len() by { slen_vals(s); } assert forall|s: Series| true implies slen(s) == (#[trigger] sv::<Seq<R>>(s)).len() by { slen_list(s, sv::<Seq<R>>(s).len()); } }
//@end
//@twin path=pl_recursive_lstsq_f32 file=num_ext/linear_regression_f32.rs
// ---------------------------------------------------------------- several targets at once
// the first k columns are targets
pub open spec fn filled_k(c: Cols, x: R, k: int) -> Cols { Seq::new(c.len(), |j: int| if j < k { c[j] } else { Seq::new(c[j].len(), |i: int| fl(c[j][i], x)) }) }
pub open spec fn holes_k(c: Cols, k: int) -> bool { exists|j: int, i: int| 0 <= j < k && 0 <= i < c[j].len() && (#[trigger] c[j][i]) is None }
pub open spec fn mprep(p: NullPolicy, xs: Seq<Series>, k: int, bias: bool) -> Cols {
  let c = match p { NullPolicy::FILL(x) => if holes(scols(xs)) { filled_k(scols(xs), x, k) } else { scols(xs) }, _ => scols(xs) };
  if bias { c.push(konst(one_r(), hh(xs))) } else { c }
}
// missing features can be replaced, nothing else
pub open spec fn mgood(p: NullPolicy, xs: Seq<Series>, k: int) -> bool { distinct(snames(xs)) && level(scols(xs)) && hh(xs) > 0 && (holes(scols(xs)) ==> p is FILL && !holes_k(scols(xs), k)) }
pub open spec fn fills_k(e: Ex, ns: Seq<Name>, x: R) -> bool { star(e) && (forall|n: Name| #[trigger] out_of(e).contains(n) <==> ns.contains(n)) && forall|c: Option<R>| #[trigger] cell(e, c) == fl(c, x) }
pub proof fn fills_k_all(f: Fr, k: int, x: R) requires f.names.len() == f.cols.len(), 0 <= k <= f.cols.len(), distinct(f.names)
  ensures forall|e: Ex| fills_k(e, f.names.take(k), x) ==> (#[trigger] with(f, e)).cols == filled_k(f.cols, x, k) && with(f, e).names == f.names && with(f, e).h == f.h
{
  assert forall|e: Ex| fills_k(e, f.names.take(k), x) implies (#[trigger] with(f, e)).cols == filled_k(f.cols, x, k) && with(f, e).names == f.names && with(f, e).h == f.h by {
    let g = with(f, e); let q = filled_k(f.cols, x, k); let ns = f.names.take(k);
    assert forall|j: int| 0 <= j < f.cols.len() implies g.cols[j] == q[j] by {
      assert(ns.contains(f.names[j]) == (j < k)) by { if j < k { assert(ns[j] == f.names[j]); } if ns.contains(f.names[j]) { let t = choose|t: int| 0 <= t < ns.len() && ns[t] == f.names[j]; assert(f.names[t] == f.names[j]); if t != j { if t < j { assert(f.names[t] != f.names[j]); } else { assert(f.names[j] != f.names[t]); } } } }
      assert(out_of(e).contains(f.names[j]) == (j < k));
      assert(g.cols[j] =~= q[j]);
    }
    assert(g.cols =~= q);
  }
}
//@fn path=series_to_mat_for_multi_lstsq file=num_ext/linear_regression.rs ret=r
//@letty __acc2 Vec<Series>
//@letty __acc3 Vec<Name>
//@letty __acc4 Vec<Series>
//@spec
requires 1 <= last_target_idx <= inputs@.len()
ensures (r is Ok) == mgood(null_policy, inputs@, last_target_idx as int),
  r is Ok ==> r->Ok_0@ == fmx(mprep(null_policy, inputs@, last_target_idx as int, has_bias), hh(inputs@) as int)
//@at fn.start
let ghost xs = inputs@; let ghost c0 = scols(xs); let ghost k0 = last_target_idx as int;
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == xs.subrange(0, k0), 1 <= k0 <= xs.len(), __acc0 == exists|k: int, i: int| 0 <= k < __i0 && 0 <= i < vals(xs[k]).len() && (#[trigger] vals(xs[k])[i]) is None,
decreases __n0 - __i0
//@at let.s.0
proof { assert(*s == xs[__p0 as int]); }
//@loop 1
invariant __i1 <= __n1, __n1 == __s2.len(), __s2@ == xs.subrange(k0, xs.len() as int), 1 <= k0 <= xs.len(), __acc1 == exists|k: int, i: int| k0 <= k < k0 + __i1 && 0 <= i < vals(xs[k]).len() && (#[trigger] vals(xs[k])[i]) is None,
decreases __n1 - __i1
//@at let.s.1
proof { assert(*s == xs[k0 + __p1]); }
//@at let.has_null.0
proof {
  assert(y_has_null == holes_k(c0, k0)) by {
    if holes_k(c0, k0) { let (k, i) = choose|k: int, i: int| 0 <= k < k0 && 0 <= i < c0[k].len() && (#[trigger] c0[k][i]) is None; assert(vals(xs[k])[i] is None); }
    if y_has_null { let (k, i) = choose|k: int, i: int| 0 <= k < k0 && 0 <= i < vals(xs[k]).len() && (#[trigger] vals(xs[k])[i]) is None; assert(c0[k][i] is None); }
  }
  assert(has_null == holes(c0)) by {
    if holes(c0) { let (k, i) = choose|k: int, i: int| 0 <= k < c0.len() && 0 <= i < c0[k].len() && (#[trigger] c0[k][i]) is None; assert(vals(xs[k])[i] is None); if k < k0 { assert(c0[k][i] is None); assert(holes_k(c0, k0)); } }
    if has_null { if y_has_null { let (k, i) = choose|k: int, i: int| 0 <= k < k0 && 0 <= i < c0[k].len() && (#[trigger] c0[k][i]) is None; assert(c0[k][i] is None); } else { let (k, i) = choose|k: int, i: int| k0 <= k < xs.len() && 0 <= i < vals(xs[k]).len() && (#[trigger] vals(xs[k])[i]) is None; assert(c0[k][i] is None); } }
  }
}
//@loop 2
invariant __i2 <= __n2, __n2 == inputs.len(), __acc2@ == inputs@.take(__i2 as int),
decreases __n2 - __i2
//@at loop2.post
proof { assert(__acc2@ =~= inputs@); }
//@at loop2.end
proof { assert(inputs@.take(__p2 + 1) =~= inputs@.take(__p2 as int).push(inputs@[__p2 as int])); }
//@loop 4
invariant __i4 <= __n4, __n4 == inputs.len(), __acc4@ == inputs@.take(__i4 as int),
decreases __n4 - __i4
//@at loop4.post
proof { assert(__acc4@ =~= inputs@); }
//@at loop4.end
proof { assert(inputs@.take(__p4 + 1) =~= inputs@.take(__p4 as int).push(inputs@[__p4 as int])); }
//@loop 3
invariant __i3 <= __n3, __n3 == __s3.len(), __s3@ == xs.subrange(0, k0), 1 <= k0 <= xs.len(), __acc3@ == snames(xs).take(__i3 as int),
decreases __n3 - __i3
//@at loop3.end
proof { assert(snames(xs).take(__p3 + 1) =~= snames(xs).take(__p3 as int).push(nm(xs[__p3 as int]))); }
//@at let.df.0
let ghost d0 = df@;
//@at let.y_names.0
proof { fills_k_all(d0, k0, x); reveal_with_fuel(star, 5); reveal_with_fuel(out_of, 5); reveal_with_fuel(cell, 5); assert(y_names@ == d0.names.take(k0)); assert forall|n: Name| (Seq::<Name>::empty() + y_names@).contains(n) == #[trigger] y_names@.contains(n) by { assert(Seq::<Name>::empty() + y_names@ =~= y_names@); } }
//@at let.df.1
let ghost d1 = df@;
proof { frame_wf(df); assert(d1.names == snames(xs)); assert(d1.h == hh(xs)); }
//@loop 5
invariant __i5 <= __n5, __n5 == inputs.len(), nlen(__acc5) > 0, forall|k: int| 0 <= k < __i5 ==> nlen(__acc5) > nlen(#[trigger] nm(inputs@[k])),
decreases __n5 - __i5
//@at loop5.pre
proof { reveal_strlit("__bias__"); assert(nlen(__acc5) == 8); }
//@at set.df.0
proof { one_r_def(); assert forall|a: R| #[trigger] a@ == 1real implies a == one_r() by { r_ext(a, one_r()); } assert(!d1.names.contains(bias_name)); assert(df@.cols =~= mprep(null_policy, xs, k0, has_bias)); }
//@end
//@twin path=series_to_mat_for_multi_lstsq_f32 file=num_ext/linear_regression_f32.rs
//@struct path=MultiLstsqKwargs file=num_ext/linear_regression.rs
pub open spec fn xk(m: Mx, k: int) -> Mx { blk(m, 0, m.r, k, m.c) }
pub open spec fn yk(m: Mx, k: int) -> Mx { blk(m, 0, m.r, 0, k) }
// coefficients of target j
pub open spec fn mfits(m: Mx, k: int, kw: MultiLstsqKwargs, j: int, w: F1) -> bool {
  let p = m.c - k; regular(xk(m, k).e, all(), 0, m.r, kw.l2_reg@, p, kw.bias) ==> solves(xk(m, k).e, ycol(yk(m, k).e, j), all(), 0, m.r, kw.l2_reg@, p, kw.bias, w)
}
pub open spec fn mmat(s: Seq<Series>, kw: MultiLstsqKwargs) -> Mx { fmx(mprep(pol(kw.null_policy)->0, s, kw.last_target_idx as int, kw.bias), hh(s) as int) }
pub open spec fn mlok(s: Seq<Series>, kw: MultiLstsqKwargs) -> bool { 1 <= kw.last_target_idx < s.len() }
pub open spec fn mlgood(s: Seq<Series>, kw: MultiLstsqKwargs) -> bool { pol(kw.null_policy) is Some && mgood(pol(kw.null_policy)->0, s, kw.last_target_idx as int) }
pub open spec fn mcoef(s: Series, m: Mx, k: int, kw: MultiLstsqKwargs, j: int) -> bool {
  let c = sv::<Seq<R>>(s); c.len() == 1 && c[0] is Some && c[0]->0.len() == m.c - k && mfits(m, k, kw, j, cf(c[0]->0))
}
pub proof fn mfits_w(m: Mx, k: int, kw: MultiLstsqKwargs, j: int, w: F1, v: F1) requires mfits(m, k, kw, j, w), forall|t: int| 0 <= t < m.c - k ==> #[trigger] w(t) == v(t) ensures mfits(m, k, kw, j, v)
{ let p = m.c - k; if regular(xk(m, k).e, all(), 0, m.r, kw.l2_reg@, p, kw.bias) { ne_w(gram(xk(m, k).e, all(), 0, m.r, kw.l2_reg@, pcols(p, kw.bias)), w, v, mom(xk(m, k).e, ycol(yk(m, k).e, j), all(), 0, m.r), p); } }
//@fn path=pl_lstsq_multi file=num_ext/linear_regression.rs ret=r
//@spec
requires mlok(inputs@, kwargs)
ensures (r is Ok) == mlgood(inputs@, kwargs),
  r is Ok ==> { let f = fields(r->Ok_0); let k = kwargs.last_target_idx as int; f.len() == k && forall|j: int| 0 <= j < k ==> mcoef(#[trigger] f[j], mmat(inputs@, kwargs), k, kwargs, j) && nm(f[j]) == nm(inputs@[j]) }
//@letty __acc0 Vec<&Name>
//@closure 0
-> (o: PolarsError)
//@at fn.start
let ghost xs = inputs@; let ghost k0 = kwargs.last_target_idx as int; let ghost m0 = mmat(inputs@, kwargs);
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == xs.subrange(0, k0), 1 <= k0 < xs.len(), __acc0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> *(#[trigger] __acc0@[j]) == nm(xs[j]),
decreases __n0 - __i0
//@at let.x.0
proof { mx_dims(mat); assert(mat@ == m0); assert(x@ == xk(m0, k0)); assert(y@ == yk(m0, k0)); }
//@at let.coeffs.0
proof { assert forall|j: int| 0 <= j < k0 implies mfits(m0, k0, kwargs, j, #[trigger] wcol(coeffs@.e, j)) by { assert(regular(xk(m0, k0).e, all(), 0, m0.r, kwargs.l2_reg@, m0.c - k0, has_bias) ==> solves(xk(m0, k0).e, ycol(yk(m0, k0).e, j), all(), 0, m0.r, kwargs.l2_reg@, m0.c - k0, has_bias, wcol(coeffs@.e, j))); } }
//@loop 1
invariant __i1 <= __n1, __n1 == y_names.len(), y_names@.len() == k0, 1 <= k0 < xs.len(), forall|j: int| 0 <= j < k0 ==> *(#[trigger] y_names@[j]) == nm(xs[j]), coeffs@.r == m0.c - k0, coeffs@.c == k0,
  forall|j: int| 0 <= j < k0 ==> mfits(m0, k0, kwargs, j, #[trigger] wcol(coeffs@.e, j)),
  __acc1@.len() == __i1, forall|j: int| 0 <= j < __i1 ==> mcoef(#[trigger] __acc1@[j], m0, k0, kwargs, j) && nm(__acc1@[j]) == nm(xs[j]) && slen(__acc1@[j]) == 1,
decreases __n1 - __i1
//@at call.push.1
proof {
  let z = __acc1@[__p1 as int]; let c = sv::<Seq<R>>(z)[0]->0;
  assert forall|t: int| 0 <= t < m0.c - k0 implies #[trigger] wcol(coeffs@.e, __p1 as int)(t) == cf(c)(t) by { assert(c[t]@ == (coeffs@.e)(t, __p1 as int)); }
  mfits_w(m0, k0, kwargs, __p1 as int, wcol(coeffs@.e, __p1 as int), cf(c));
}
//@at loop1.post
proof {
  assert forall|i: int, j: int| 0 <= i < j < k0 implies #[trigger] snames(__acc1@)[i] != #[trigger] snames(__acc1@)[j] by { assert(snames(xs)[i] != snames(xs)[j]); assert(mcoef(__acc1@[i], m0, k0, kwargs, i) && mcoef(__acc1@[j], m0, k0, kwargs, j)); }
  assert forall|i: int| 0 <= i < k0 implies (#[trigger] scols(__acc1@)[i]).len() == 1 by { slen_vals(__acc1@[i]); assert(mcoef(__acc1@[i], m0, k0, kwargs, i)); }
}
//@end
//@twin path=pl_lstsq_multi_f32 file=num_ext/linear_regression_f32.rs
pub open spec fn mpred(a: Series, b: Series, m: Mx, k: int, j: int, w: F1) -> bool {
  vals(a).len() == m.r && vals(b).len() == m.r && forall|i: int| 0 <= i < m.r ==> (#[trigger] vals(a)[i]) is Some && vals(a)[i]->0@ == dot(rw(xk(m, k).e, i), w, m.c - k) && vals(b)[i] is Some && vals(b)[i]->0@ == (yk(m, k).e)(i, j) - vals(a)[i]->0@
}
pub open spec fn mnames(a: Series, b: Series, n: Name) -> bool { nm(a) == fmtn("{}_pred"@, n) && nm(b) == fmtn("{}_resid"@, n) }
//@fn path=pl_lstsq_multi_pred file=num_ext/linear_regression.rs ret=r
//@spec
requires mlok(inputs@, kwargs), kwargs.last_target_idx * 2 <= usize::MAX
ensures (r is Ok) == mlgood(inputs@, kwargs),
  r is Ok ==> { let f = fields(r->Ok_0); let k = kwargs.last_target_idx as int; let m = mmat(inputs@, kwargs); f.len() == 2 * k && forall|j: int| 0 <= j < k ==> mnames(#[trigger] f[2 * j], f[2 * j + 1], nm(inputs@[j])) && exists|w: F1| #[trigger] mfits(m, k, kwargs, j, w) && mpred(f[2 * j], f[2 * j + 1], m, k, j, w) }
//@letty __acc0 Vec<&Name>
//@closure 0
-> (o: PolarsError)
//@at fn.start
let ghost xs = inputs@; let ghost k0 = kwargs.last_target_idx as int; let ghost m0 = mmat(inputs@, kwargs);
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == xs.subrange(0, k0), 1 <= k0 < xs.len(), __acc0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> *(#[trigger] __acc0@[j]) == nm(xs[j]),
decreases __n0 - __i0
//@at let.x.0
let ghost y0 = y@;
proof { mx_dims(mat); assert(mat@ == m0); assert(x@ == xk(m0, k0)); assert(y@ == yk(m0, k0)); }
//@at let.coeffs.0
proof { assert forall|j: int| 0 <= j < k0 implies mfits(m0, k0, kwargs, j, #[trigger] wcol(coeffs@.e, j)) by { assert(regular(xk(m0, k0).e, all(), 0, m0.r, kwargs.l2_reg@, m0.c - k0, has_bias) ==> solves(xk(m0, k0).e, ycol(yk(m0, k0).e, j), all(), 0, m0.r, kwargs.l2_reg@, m0.c - k0, has_bias, wcol(coeffs@.e, j))); } }
//@at let.resid.0
let ghost ce = coeffs@.e;
proof {
  assert forall|i: int, j: int| 0 <= j < k0 implies #[trigger] (pred@.e)(i, j) == dot(rw(xk(m0, k0).e, i), wcol(ce, j), m0.c - k0) by { sum_ext(|t: int| (x@.e)(i, t) * (coeffs@.e)(t, j), |t: int| rw(xk(m0, k0).e, i)(t) * wcol(ce, j)(t), m0.c - k0); }
}
//@loop 1
invariant __i1 <= __n1, __n1 == y_names.len(), y_names@.len() == k0, 1 <= k0 < xs.len(), m0.r == hh(xs), forall|j: int| 0 <= j < k0 ==> *(#[trigger] y_names@[j]) == nm(xs[j]), pred@.r == m0.r, pred@.c == k0, resid@.r == m0.r, resid@.c == k0,
  forall|i: int, j: int| 0 <= j < k0 ==> #[trigger] (pred@.e)(i, j) == dot(rw(xk(m0, k0).e, i), wcol(ce, j), m0.c - k0),
  forall|i: int, j: int| #[trigger] (resid@.e)(i, j) == (yk(m0, k0).e)(i, j) - (pred@.e)(i, j),
  s@.len() == 2 * __i1, forall|j: int| 0 <= j < __i1 ==> mnames(#[trigger] s@[2 * j], s@[2 * j + 1], nm(xs[j])) && mpred(s@[2 * j], s@[2 * j + 1], m0, k0, j, wcol(ce, j)), forall|j: int| 0 <= j < s@.len() ==> vals(#[trigger] s@[j]).len() == m0.r,
decreases __n1 - __i1
//@at let.y.1
let ghost s0 = s@;
//@at let.r.0
let ghost (pv, rv) = (p@, r@);
//@at call.push.2
proof {
  let j = __p1 as int;
  assert(s@[2 * j] == s@[s0.len() as int]); assert(s@[2 * j + 1] == s@[s0.len() as int + 1]);
  assert(mpred(s@[2 * j], s@[2 * j + 1], m0, k0, j, wcol(ce, j))) by {
    assert forall|i: int| 0 <= i < m0.r implies (#[trigger] vals(s@[2 * j])[i]) is Some && vals(s@[2 * j])[i]->0@ == (pred@.e)(i, j) && vals(s@[2 * j + 1])[i] is Some && vals(s@[2 * j + 1])[i]->0@ == (resid@.e)(i, j) by { assert(pv[i] is Some); assert(rv[i] is Some); }
  }
  assert forall|t: int| 0 <= t < __p1 + 1 implies mnames(#[trigger] s@[2 * t], s@[2 * t + 1], nm(xs[t])) && mpred(s@[2 * t], s@[2 * t + 1], m0, k0, t, wcol(ce, t)) by { if t < __p1 { assert(s@[2 * t] == s0[2 * t]); assert(s@[2 * t + 1] == s0[2 * t + 1]); } }
}
//@at loop1.post
proof {
  assert forall|a: int, b: int| 0 <= a < b < s@.len() implies #[trigger] snames(s@)[a] != #[trigger] snames(s@)[b] by {
    let (i, j) = (a / 2, b / 2);
    assert(mnames(s@[2 * i], s@[2 * i + 1], nm(xs[i]))); assert(mnames(s@[2 * j], s@[2 * j + 1], nm(xs[j])));
    fmt_two(nm(xs[i]), nm(xs[j])); fmt_two(nm(xs[j]), nm(xs[i])); fmt_one("{}_pred"@, nm(xs[i]), nm(xs[j])); fmt_one("{}_resid"@, nm(xs[i]), nm(xs[j]));
    if i != j { assert(snames(xs)[i] != snames(xs)[j]); }
    assert(a == 2 * i || a == 2 * i + 1); assert(b == 2 * j || b == 2 * j + 1);
  }
  assert forall|i: int| 0 <= i < s@.len() implies (#[trigger] scols(s@)[i]).len() == m0.r by { assert(vals(s@[i]).len() == m0.r); }
}
//@end
//@twin path=pl_lstsq_multi_pred_f32 file=num_ext/linear_regression_f32.rs
// ---------------------------------------------------------------- singular values
pub open spec fn rc_of(kw: LstsqKwargs, a: int) -> real { rmax(kw.tol@, EPSV() * (a as real)) }
pub open spec fn rcond_ok(xs: Seq<Series>, kw: LstsqKwargs) -> bool {
  xs.len() >= 2 && (pol(kw.null_policy) is Some ==> { let m = mat_of(pol(kw.null_policy)->0, xs, kw.bias); forall|g: Mx| #[trigger] isgram(g, xm(m), kw.l2_reg@, kw.bias) ==> svok(g) && exists|i: int| 0 <= i < m.c - 1 && #[trigger] svs(g)(i) > 0real })
}
pub open spec fn rc_res(c: Seq<R>, s: Seq<R>, g: Mx, x: Mx, y: Mx, rc: real) -> bool {
  c.len() == x.c && s.len() == x.c && (forall|i: int| 0 <= i < x.c ==> (#[trigger] s[i])@ == rsqrt(svs(g)(i)))
  && forall|i: int| 0 <= i < x.c ==> (#[trigger] c[i])@ == mm(mm(mm(mm(svv(g), sdiag(g, sthr(g, rc, x.c), x.c), x.c), tr(svu(g)), x.c), tr(x.e), x.c), y.e, x.r)(i, 0)
}
//@fn path=pl_lstsq_w_rcond file=num_ext/linear_regression.rs ret=r
//@spec
requires rcond_ok(inputs@, kwargs)
ensures (r is Ok) == (pol(kwargs.null_policy) is Some && good(pol(kwargs.null_policy)->0, inputs@)),
  r is Ok ==> fields(r->Ok_0).len() == 2 && {
    let m = mat_of(pol(kwargs.null_policy)->0, inputs@, kwargs.bias); let (x, y) = (xm(m), ym(m)); let (c, s) = (sv::<Seq<R>>(fields(r->Ok_0)[0]), sv::<Seq<R>>(fields(r->Ok_0)[1]));
    c.len() == 1 && c[0] is Some && s.len() == 1 && s[0] is Some && exists|g: Mx| #[trigger] isgram(g, x, kwargs.l2_reg@, kwargs.bias) && rc_res(c[0]->0, s[0]->0, g, x, y, rc_of(kwargs, if m.r * m.c > inputs@.len() { m.r * m.c } else { inputs@.len() as int })) }
//@closure 0
-> (o: PolarsError)
//@at let.y.0
let ghost m0 = mat_of(null_policy, inputs@, has_bias); proof { mx_dims(mat); assert(mat@ == m0); assert(x@ == xm(m0)); assert(y@ == ym(m0)); assert(rcond@ == rc_of(kwargs, if m0.r * m0.c > inputs@.len() { m0.r * m0.c } else { inputs@.len() as int })); }
//@at let.ca.0
proof {
  let (x, y) = (xm(m0), ym(m0)); let rc = rc_of(kwargs, if m0.r * m0.c > inputs@.len() { m0.r * m0.c } else { inputs@.len() as int });
  let g = choose|g: Mx| #[trigger] isgram(g, x, kwargs.l2_reg@, has_bias) && (forall|i: int| 0 <= i < x.c ==> (#[trigger] singular_values@[i])@ == rsqrt(svs(g)(i))) && coeffs@.e == mm(mm(mm(mm(svv(g), sdiag(g, sthr(g, rc, x.c), x.c), x.c), tr(svu(g)), x.c), tr(x.e), x.c), y.e, x.r);
  assert(isgram(g, x, kwargs.l2_reg@, has_bias));
  assert(fields(ca.s).len() == 2);
  let (c, s) = (sv::<Seq<R>>(fields(ca.s)[0]), sv::<Seq<R>>(fields(ca.s)[1]));
  assert(c.len() == 1 && c[0] is Some); assert(s.len() == 1 && s[0] is Some);
  assert(rc_res(c[0]->0, s[0]->0, g, x, y, rc));
}
//@end
//@twin path=pl_lstsq_w_rcond_f32 file=num_ext/linear_regression_f32.rs
}
fn main(){}
