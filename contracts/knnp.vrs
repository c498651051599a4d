//@include prelude_real.rs
//@default types=T:R,f64:R,UInt32Type:u32,Float64Type:R,Kdt:TreeU parcols=1 methods=into=>vx_into
//@include split.inc
//@include cols.rs
verus!{
use vstd::multiset::Multiset;
impl Copy for Name {}
pub type String = Name;
pub trait Float { }
impl Float for R { }
pub trait Conv: Sized { type Out; spec fn conv(self) -> Self::Out; }
impl Conv for Name { type Out = Name; open spec fn conv(self) -> Name { self } }
impl<'a, T: Float, A> Conv for (A, &'a [T]) { type Out = Leaf<'a, T, A>; open spec fn conv(self) -> Leaf<'a, T, A> { Leaf { item: self.0, row_vec: self.1 } } }
// x.into(): for a pair it is Leaf::from below
#[verifier::external_body] pub fn vx_into<X: Conv>(x: X) -> (r: X::Out) ensures r == x.conv() { unimplemented!() }
//@struct path=NB file=arkadia/neighbor.rs types=f64:R
//@struct path=Leaf file=arkadia/leaf.rs types=f64:R
impl<A: Copy> Copy for NB<R, A> { }
impl<A: Copy> Clone for NB<R, A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<A> NB<R, A> {
//@fn path=NB::to_item file=arkadia/neighbor.rs ret=r
//@spec
ensures r == self.item
//@end
//@fn path=NB::to_dist file=arkadia/neighbor.rs ret=r
//@spec
ensures r == self.dist
//@end
//@fn path=NB::to_pair file=arkadia/neighbor.rs ret=r
//@spec
ensures r == (self.dist, self.item)
//@end
}
impl<'a, A> Leaf<'a, R, A> {
//@fn path=Leaf::from file=arkadia/leaf.rs ret=r
//@sig pub fn from(value: (A, &'a [R])) -> (r: Leaf<'a, R, A>)
//@spec
ensures r == value.conv()
//@end
}
// ---- the tree: its queries are functions of the set of leaves (proved in kdt.vrs), named here ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DIST<T> { p: std::marker::PhantomData<T> }
pub uninterp spec fn metric(name: Name, dim: usize) -> Option<DIST<R>>;
impl DIST<R> { #[verifier::external_body] pub fn new_from_str_informed(name: Name, dim: usize) -> (r: Result<DIST<R>, Name>) ensures (r is Ok) == (metric(name, dim) is Some), r is Ok ==> r->Ok_0 == metric(name, dim)->0 { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(A)] pub struct KDT<'a, T, A> { p: std::marker::PhantomData<(&'a T, A)> }
pub type TreeU<'a> = KDT<'a, R, u32>;
pub type Tree0<'a> = KDT<'a, R, ()>;
pub type Pts<A> = Multiset<(A, Seq<R>)>;
pub open spec fn pt<A>(l: Leaf<R, A>) -> (A, Seq<R>) { (l.item, l.row_vec@) }
pub open spec fn ptseq<A>(s: Seq<Leaf<R, A>>) -> Seq<(A, Seq<R>)> { Seq::new(s.len(), |i: int| pt(s[i])) }
pub uninterp spec fn near<A>(t: Pts<A>, d: DIST<R>, k: int, p: Seq<R>, hi: R, eps: R) -> Option<Seq<NB<R, A>>>;
pub uninterp spec fn ball<A>(t: Pts<A>, d: DIST<R>, p: Seq<R>, r: R, sort: bool) -> Option<Seq<NB<R, A>>>;
pub uninterp spec fn ballsize<A>(t: Pts<A>, d: DIST<R>, p: Seq<R>, r: R) -> Option<u32>;
pub uninterp spec fn avg(t: Pts<R>, d: DIST<R>, k: int, p: Seq<R>, lo: R, hi: R, how: KNNMethod) -> Option<R>;
pub uninterp spec fn suggested(w: usize) -> usize;
#[verifier::external_body] pub fn suggest_capacity(dim: usize) -> usize { unimplemented!() }
impl<'a, T, A> KDT<'a, T, A> { pub uninterp spec fn w(&self) -> nat; pub uninterp spec fn d(&self) -> DIST<R>; }
impl<'a, A> KDT<'a, R, A> {
  pub uninterp spec fn pts(&self) -> Pts<A>;
  #[verifier::external_body] pub fn dim(&self) -> (r: usize) ensures r == self.w() { unimplemented!() }
  #[verifier::external_body] pub fn new_empty(w: usize, c: usize, d: DIST<R>) -> (r: Self) ensures r.w() == w, r.d() == d, r.pts() == Multiset::<(A, Seq<R>)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn from_leaves_unchecked(leaves: &mut Vec<Leaf<'a, R, A>>, d: DIST<R>) -> (r: Self) requires old(leaves)@.len() > 0 ensures r.w() == old(leaves)@[0].row_vec.len(), r.d() == d, r.pts() == ptseq(old(leaves)@).to_multiset() { unimplemented!() }
  #[verifier::external_body] pub fn knn_bounded(&self, k: usize, p: &[R], hi: R, eps: R) -> (r: Option<Vec<NB<R, A>>>)
    ensures (r is Some) == (near(self.pts(), self.d(), k as int, p@, hi, eps) is Some), r is Some ==> r->0@ == near(self.pts(), self.d(), k as int, p@, hi, eps)->0 { unimplemented!() }
  #[verifier::external_body] pub fn within(&self, p: &[R], r: R, sort: bool) -> (o: Option<Vec<NB<R, A>>>)
    ensures (o is Some) == (ball(self.pts(), self.d(), p@, r, sort) is Some), o is Some ==> o->0@ == ball(self.pts(), self.d(), p@, r, sort)->0 { unimplemented!() }
  #[verifier::external_body] pub fn within_count(&self, p: &[R], r: R) -> (o: Option<u32>) ensures o == ballsize(self.pts(), self.d(), p@, r) { unimplemented!() }
}
impl<'a> KDT<'a, R, R> {
  #[verifier::external_body] pub fn knn_regress(&self, k: usize, p: &[R], lo: R, hi: R, how: KNNMethod) -> (r: Option<R>) ensures r == avg(self.pts(), self.d(), k as int, p@, lo, hi, how) { unimplemented!() }
}
//@enum path=KNNMethod file=arkadia/mod.rs
impl Copy for KNNMethod { }
impl Clone for KNNMethod { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn how(weighted: bool, lo: R) -> KNNMethod;
impl KNNMethod { #[verifier::external_body] pub fn new(weighted: bool, lo: R) -> (r: KNNMethod) ensures r == how(weighted, lo) { unimplemented!() } }
// ---- columns: lists, builders, the row-major copy of the feature columns ----
pub ghost enum Cell { I(u32), D(R) }
pub trait Prim: Sized { spec fn cell(self) -> Cell; }
impl Prim for u32 { open spec fn cell(self) -> Cell { Cell::I(self) } }
impl Prim for R { open spec fn cell(self) -> Cell { Cell::D(self) } }
pub open spec fn cells<T: Prim>(s: Seq<T>) -> Seq<Cell> { Seq::new(s.len(), |i: int| s[i].cell()) }
pub type ListChunked = Ca<Seq<Cell>>;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ListPrimitiveChunkedBuilder<T> { p: std::marker::PhantomData<T> }
impl<T: Prim> ListPrimitiveChunkedBuilder<T> {
  pub uninterp spec fn s(&self) -> Seq<Option<Seq<Cell>>>;
  #[verifier::external_body] pub fn new(n: Name, rows: usize, cap: usize, t: DataType) -> (r: Self) ensures r.s() == Seq::<Option<Seq<Cell>>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn append_values_iter(&mut self, v: Vec<T>) ensures final(self).s() == old(self).s().push(Some(cells(v@))) { unimplemented!() }
  #[verifier::external_body] pub fn append_slice(&mut self, v: &Vec<T>) ensures final(self).s() == old(self).s().push(Some(cells(v@))) { unimplemented!() }
  #[verifier::external_body] pub fn append_null(&mut self) ensures final(self).s() == old(self).s().push(None) { unimplemented!() }
  #[verifier::external_body] pub fn finish(&mut self) -> (r: ListChunked) ensures r@ == old(self).s() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct PrimitiveChunkedBuilder<T> { p: std::marker::PhantomData<T> }
impl<T> PrimitiveChunkedBuilder<T> {
  pub uninterp spec fn s(&self) -> Seq<Option<T>>;
  #[verifier::external_body] pub fn new(n: Name, rows: usize) -> (r: Self) ensures r.s() == Seq::<Option<T>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn append_option(&mut self, v: Option<T>) ensures final(self).s() == old(self).s().push(v) { unimplemented!() }
  #[verifier::external_body] pub fn append_null(&mut self) ensures final(self).s() == old(self).s().push(None) { unimplemented!() }
  #[verifier::external_body] pub fn finish(self) -> (r: Ca<T>) ensures r@ == self.s() { unimplemented!() }
}
// the column has no missing entry and is in one piece
pub uninterp spec fn one<T>(c: Ca<T>) -> bool;
impl<T> Ca<T> {
  #[verifier::external_body] pub fn from_iter_options(n: Name, v: Vec<Option<T>>) -> (r: Ca<T>) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn with_name(self, n: Name) -> (r: Ca<T>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<Option<T>>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn cont_slice(&self) -> (r: PolarsResult<&[T]>) ensures (r is Ok) == one(*self), r is Ok ==> r->Ok_0@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) == Some(r->Ok_0@[i]) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_unzip<A, B>(v: Vec<(Chunks<A>, Chunks<B>)>) -> (r: (Vec<Chunks<A>>, Vec<Chunks<B>>))
  ensures r.0@ == firsts(v@), r.1@ == seconds(v@) { unimplemented!() }
pub open spec fn firsts<A, B>(v: Seq<(Chunks<A>, Chunks<B>)>) -> Seq<Chunks<A>> { Seq::new(v.len(), |i: int| v[i].0) }
pub open spec fn seconds<A, B>(v: Seq<(Chunks<A>, Chunks<B>)>) -> Seq<Chunks<B>> { Seq::new(v.len(), |i: int| v[i].1) }
pub uninterp spec fn matrix(s: Seq<Series>) -> Seq<R>;
pub uninterp spec fn height(s: Seq<Series>) -> nat;
pub uninterp spec fn numeric(s: Seq<Series>) -> bool;
#[verifier::external_body] pub fn series_to_row_major_slice<T>(s: &[Series]) -> (r: PolarsResult<Vec<R>>)
  ensures (r is Ok) == numeric(s@), r is Ok ==> s.len() > 0 && r->Ok_0@ == matrix(s@) && r->Ok_0@.len() == height(s@) * s.len() { unimplemented!() }

// ---- rows of a row-major matrix ----
pub open spec fn rowof(data: Seq<R>, w: int, i: int) -> Seq<R> { data.subrange(i * w, i * w + w) }
proof fn row_at(data: Seq<R>, w: int, n: int, i: int) requires w > 0, data.len() == n * w, 0 <= i < n ensures 0 <= i * w, i * w + w <= data.len()
{ assert(i * w >= 0) by(nonlinear_arith) requires i >= 0, w > 0; assert(i * w + w <= n * w) by(nonlinear_arith) requires i + 1 <= n, w > 0; }
proof fn part_at(data: Seq<R>, w: int, n: int, o: int, k: int) requires w > 0, data.len() == n * w, 0 <= o, 0 <= k, o + k <= n
  ensures 0 <= o * w <= (o + k) * w <= data.len(), ((o + k) * w - o * w) / w == k, (o + k) * w - o * w == k * w
{ assert(o * w >= 0) by(nonlinear_arith) requires o >= 0, w > 0; assert((o + k) * w == o * w + k * w) by(nonlinear_arith); assert(k * w >= 0) by(nonlinear_arith) requires k >= 0, w > 0;
  assert((o + k) * w <= n * w) by(nonlinear_arith) requires o + k <= n, w > 0; assert((k * w) / w == k) by(nonlinear_arith) requires w > 0, k >= 0; }
proof fn row_in(data: Seq<R>, w: int, n: int, o: int, k: int, j: int) requires w > 0, data.len() == n * w, 0 <= o, 0 <= j < k, o + k <= n
  ensures rowof(data.subrange(o * w, (o + k) * w), w, j) == rowof(data, w, o + j), 0 <= j * w, j * w + w <= k * w
{ part_at(data, w, n, o, k); row_at(data, w, n, o + j); assert((o + j) * w == o * w + j * w) by(nonlinear_arith); assert(j * w >= 0) by(nonlinear_arith) requires j >= 0, w > 0; assert(j * w + w <= k * w) by(nonlinear_arith) requires j + 1 <= k, w > 0;
  assert(rowof(data.subrange(o * w, (o + k) * w), w, j) =~= rowof(data, w, o + j)); }
proof fn whole(len: int, w: int) requires w > 0, len >= 0, len % w == 0 ensures len == (len / w) * w, len / w >= 0 { assert(len == (len / w) * w) by(nonlinear_arith) requires w > 0, len % w == 0; assert(len / w >= 0) by(nonlinear_arith) requires w > 0, len >= 0; }
proof fn div_at(len: int, w: int, n: int) requires w > 0, len == n * w, n >= 0 ensures len / w == n { assert((n * w) / w == n) by(nonlinear_arith) requires w > 0, n >= 0; }
// ---- the column whose entry i is g(i) ----
pub open spec fn tab<U>(g: spec_fn(int) -> Option<U>, a: int, b: int) -> Seq<Option<U>> { Seq::new((b - a) as nat, |i: int| g(a + i)) }
proof fn tab_push<U>(g: spec_fn(int) -> Option<U>, a: int, b: int, s: Seq<Option<U>>) requires 0 <= a <= b, s == tab(g, a, b) ensures s.push(g(b)) == tab(g, a, b + 1) { assert(s.push(g(b)) =~= tab(g, a, b + 1)); }
proof fn tab_cat<U>(acc: Seq<Chunks<U>>, c: Chunks<U>, g: spec_fn(int) -> Option<U>, a: int, k: int) requires 0 <= a, 0 <= k, cat(acc) == tab(g, 0, a), c@ == tab(g, a, a + k) ensures cat(acc.push(c)) == tab(g, 0, a + k)
{ assert(acc.push(c).drop_last() =~= acc); assert(cat(acc.push(c)) =~= tab(g, 0, a + k)); }
pub open spec fn items<A: Prim>(s: Option<Seq<NB<R, A>>>) -> Option<Seq<Cell>> { match s { Some(v) => Some(Seq::new(v.len(), |i: int| v[i].item.cell())), None => None } }
pub open spec fn dists<A>(s: Option<Seq<NB<R, A>>>) -> Option<Seq<Cell>> { match s { Some(v) => Some(Seq::new(v.len(), |i: int| v[i].dist.cell())), None => None } }
pub open spec fn knn_i(t: Pts<u32>, d: DIST<R>, m: Seq<bool>, x: Seq<R>, w: int, k: int, hi: R, eps: R) -> spec_fn(int) -> Option<Seq<Cell>> { |i: int| if m[i] { items(near(t, d, k + 1, rowof(x, w, i), hi, eps)) } else { None } }
pub open spec fn knn_d(t: Pts<u32>, d: DIST<R>, m: Seq<bool>, x: Seq<R>, w: int, k: int, hi: R, eps: R) -> spec_fn(int) -> Option<Seq<Cell>> { |i: int| if m[i] { dists(near(t, d, k + 1, rowof(x, w, i), hi, eps)) } else { None } }
//@fn path=knn_ptwise file=num_ext/knn.rs ret=r generics=<'a>
//@letty __acc0 Vec<Chunks<Seq<Cell>>>
//@spec
requires tree.w() > 0, data.len() == eval_mask.len() * tree.w(), k < usize::MAX
ensures r@ == tab(knn_i(tree.pts(), tree.d(), eval_mask@, data@, tree.w() as int, k as int, max_bound, epsilon), 0, eval_mask@.len() as int)
//@at let.nrows.0
let ghost g = knn_i(tree.pts(), tree.d(), eval_mask@, data@, tree.w() as int, k as int, max_bound, epsilon);
let ghost t = tree.pts();
let ghost em = eval_mask@;
proof { div_at(data.len() as int, ncols as int, eval_mask.len() as int); }
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, nrows == eval_mask.len(), k < usize::MAX,
  g == knn_i(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon), cat(__acc0@) == tab(g, 0, startof(splits@, nrows as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= tab(g, 0, 0)); }
//@at let.builder.0
proof { part_at(data@, ncols as int, nrows as int, offset as int, len as int); }
//@loop 1
invariant __i1 <= __n1, __n1 == len, offset + len <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, nrows == eval_mask.len(), k < usize::MAX, subslice@ == data@.subrange(offset * ncols, (offset + len) * ncols), subslice.len() == len * ncols, mask@ == eval_mask@.subrange(offset as int, offset + len),
  g == knn_i(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon), builder.s() == tab(g, offset as int, offset + __i1),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(builder.s() =~= tab(g, offset as int, offset as int)); }
//@at let.b.0
proof { row_in(data@, ncols as int, nrows as int, offset as int, len as int, __p1 as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == nbs.len(), __acc2.len() == __i2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] __acc2@[i]) == nbs@[i].item,
decreases __n2 - __i2
//@at loop1.end
proof { tab_push(g, offset as int, offset + __p1, tab(g, offset as int, offset + __p1)); }
//@at call.append_values_iter.0
proof { assert(builder.s().last()->0 =~= items(near(tree.pts(), tree.d(), k + 1, p@, max_bound, epsilon))->0); }
//@at before.push.1
proof { tab_cat(__acc0@, __v0, g, offset as int, len as int); }
//@loop 3
invariant __i3 <= __n3, __n3 == eval_mask.len(), ncols == tree.w(), ncols > 0, data.len() == eval_mask.len() * ncols, k < usize::MAX,
  g == knn_i(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon), builder.s() == tab(g, 0, __i3 as int),
decreases __n3 - __i3
//@at loop3.pre
proof { assert(builder.s() =~= tab(g, 0, 0)); }
//@at let.b.1
proof { row_at(data@, ncols as int, eval_mask.len() as int, __p3 as int); }
//@loop 4
invariant __i4 <= __n4, __n4 == nbs.len(), __acc4.len() == __i4, forall|i: int| 0 <= i < __i4 ==> (#[trigger] __acc4@[i]) == nbs@[i].item,
decreases __n4 - __i4
//@at loop4.post
proof { assert(cells(__acc4@) =~= items(near(tree.pts(), tree.d(), k + 1, p@, max_bound, epsilon))->0); }
//@at loop3.end
proof { tab_push(g, 0, __p3 as int, tab(g, 0, __p3 as int)); }
//@end
//@fn path=knn_ptwise_w_dist file=num_ext/knn.rs ret=r generics=<'a>
//@letty __acc0 Vec<(Chunks<Seq<Cell>>, Chunks<Seq<Cell>>)>
//@spec
requires tree.w() > 0, data.len() == eval_mask.len() * tree.w(), k < usize::MAX
ensures r.0@ == tab(knn_i(tree.pts(), tree.d(), eval_mask@, data@, tree.w() as int, k as int, max_bound, epsilon), 0, eval_mask@.len() as int),
  r.1@ == tab(knn_d(tree.pts(), tree.d(), eval_mask@, data@, tree.w() as int, k as int, max_bound, epsilon), 0, eval_mask@.len() as int)
//@at let.nrows.0
let ghost g = knn_i(tree.pts(), tree.d(), eval_mask@, data@, tree.w() as int, k as int, max_bound, epsilon);
let ghost h = knn_d(tree.pts(), tree.d(), eval_mask@, data@, tree.w() as int, k as int, max_bound, epsilon);
proof { div_at(data.len() as int, ncols as int, eval_mask.len() as int); }
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, nrows == eval_mask.len(), k < usize::MAX,
  g == knn_i(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon), h == knn_d(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon),
  cat(firsts(__acc0@)) == tab(g, 0, startof(splits@, nrows as int, __i0 as int)), cat(seconds(__acc0@)) == tab(h, 0, startof(splits@, nrows as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(firsts(__acc0@)) =~= tab(g, 0, 0)); assert(cat(seconds(__acc0@)) =~= tab(h, 0, 0)); }
//@at let.builder.0
proof { part_at(data@, ncols as int, nrows as int, offset as int, len as int); }
//@loop 1
invariant __i1 <= __n1, __n1 == len, offset + len <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, nrows == eval_mask.len(), k < usize::MAX, subslice@ == data@.subrange(offset * ncols, (offset + len) * ncols), subslice.len() == len * ncols, mask@ == eval_mask@.subrange(offset as int, offset + len),
  g == knn_i(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon), h == knn_d(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon),
  builder.s() == tab(g, offset as int, offset + __i1), dist_builder.s() == tab(h, offset as int, offset + __i1),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(builder.s() =~= tab(g, offset as int, offset as int)); assert(dist_builder.s() =~= tab(h, offset as int, offset as int)); }
//@at let.b.0
proof { row_in(data@, ncols as int, nrows as int, offset as int, len as int, __p1 as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == nbs.len(), distances.len() == __i2, neighbors.len() == __i2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] neighbors@[i]) == nbs@[i].item, forall|i: int| 0 <= i < __i2 ==> (#[trigger] distances@[i]) == nbs@[i].dist,
decreases __n2 - __i2
//@at loop2.post
proof { assert(cells(neighbors@) =~= items(near(tree.pts(), tree.d(), k + 1, p@, max_bound, epsilon))->0); assert(cells(distances@) =~= dists(near(tree.pts(), tree.d(), k + 1, p@, max_bound, epsilon))->0); }
//@at loop1.end
proof { tab_push(g, offset as int, offset + __p1, tab(g, offset as int, offset + __p1)); tab_push(h, offset as int, offset + __p1, tab(h, offset as int, offset + __p1)); }
//@at before.push.2
proof { tab_cat(firsts(__acc0@), __v0.0, g, offset as int, len as int); tab_cat(seconds(__acc0@), __v0.1, h, offset as int, len as int);
  assert(firsts(__acc0@.push(__v0)) =~= firsts(__acc0@).push(__v0.0)); assert(seconds(__acc0@.push(__v0)) =~= seconds(__acc0@).push(__v0.1)); }
//@loop 3
invariant __i3 <= __n3, __n3 == eval_mask.len(), ncols == tree.w(), ncols > 0, data.len() == eval_mask.len() * ncols, k < usize::MAX,
  g == knn_i(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon), h == knn_d(tree.pts(), tree.d(), eval_mask@, data@, ncols as int, k as int, max_bound, epsilon),
  builder.s() == tab(g, 0, __i3 as int), dist_builder.s() == tab(h, 0, __i3 as int),
decreases __n3 - __i3
//@at loop3.pre
proof { assert(builder.s() =~= tab(g, 0, 0)); assert(dist_builder.s() =~= tab(h, 0, 0)); }
//@at let.b.1
proof { row_at(data@, ncols as int, eval_mask.len() as int, __p3 as int); }
//@loop 4
invariant __i4 <= __n4, __n4 == nbs.len(), distances.len() == __i4, neighbors.len() == __i4, forall|i: int| 0 <= i < __i4 ==> (#[trigger] neighbors@[i]) == nbs@[i].item, forall|i: int| 0 <= i < __i4 ==> (#[trigger] distances@[i]) == nbs@[i].dist,
decreases __n4 - __i4
//@at loop4.post
proof { assert(cells(neighbors@) =~= items(near(tree.pts(), tree.d(), k + 1, p@, max_bound, epsilon))->0); assert(cells(distances@) =~= dists(near(tree.pts(), tree.d(), k + 1, p@, max_bound, epsilon))->0); }
//@at loop3.end
proof { tab_push(g, 0, __p3 as int, tab(g, 0, __p3 as int)); tab_push(h, 0, __p3 as int, tab(h, 0, __p3 as int)); }
//@end
pub open spec fn rad_i(t: Pts<u32>, d: DIST<R>, x: Seq<R>, w: int, r: R, sort: bool) -> spec_fn(int) -> Option<Seq<Cell>> { |i: int| items(ball(t, d, rowof(x, w, i), r, sort)) }
//@fn path=query_radius_ptwise file=num_ext/knn.rs ret=o generics=<'a>
//@letty __acc0 Vec<Chunks<Seq<Cell>>>
//@spec
requires tree.w() > 0, (data@.len() as int) % (tree.w() as int) == 0
ensures o@ == tab(rad_i(tree.pts(), tree.d(), data@, tree.w() as int, r, sort), 0, data@.len() as int / (tree.w() as int))
//@at let.nrows.0
let ghost g = rad_i(tree.pts(), tree.d(), data@, tree.w() as int, r, sort);
proof { whole(data.len() as int, ncols as int); }
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols,
  g == rad_i(tree.pts(), tree.d(), data@, ncols as int, r, sort), cat(__acc0@) == tab(g, 0, startof(splits@, nrows as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= tab(g, 0, 0)); }
//@at let.builder.0
proof { part_at(data@, ncols as int, nrows as int, offset as int, len as int); }
//@loop 1
invariant __i1 <= __n1, __n1 == len, offset + len <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, subslice@ == data@.subrange(offset * ncols, (offset + len) * ncols), subslice.len() == len * ncols,
  g == rad_i(tree.pts(), tree.d(), data@, ncols as int, r, sort), builder.s() == tab(g, offset as int, offset + __i1),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(builder.s() =~= tab(g, offset as int, offset as int)); }
//@at loop1.start
proof { row_in(data@, ncols as int, nrows as int, offset as int, len as int, __i1 as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == v.len(), __acc2.len() == __i2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] __acc2@[i]) == v@[i].item,
decreases __n2 - __i2
//@at loop2.post
proof { assert(cells(__acc2@) =~= items(ball(tree.pts(), tree.d(), p@, r, sort))->0); }
//@at loop1.end
proof { tab_push(g, offset as int, offset + __p1, tab(g, offset as int, offset + __p1)); }
//@at before.push.1
proof { tab_cat(__acc0@, __v0, g, offset as int, len as int); }
//@loop 3
invariant __i3 <= __n3, __n3 == nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols,
  g == rad_i(tree.pts(), tree.d(), data@, ncols as int, r, sort), builder.s() == tab(g, 0, __i3 as int),
decreases __n3 - __i3
//@at loop3.pre
proof { assert(builder.s() =~= tab(g, 0, 0)); }
//@at loop3.start
proof { row_at(data@, ncols as int, nrows as int, __i3 as int); }
//@loop 4
invariant __i4 <= __n4, __n4 == v.len(), __acc4.len() == __i4, forall|i: int| 0 <= i < __i4 ==> (#[trigger] __acc4@[i]) == v@[i].item,
decreases __n4 - __i4
//@at loop4.post
proof { assert(cells(__acc4@) =~= items(ball(tree.pts(), tree.d(), p@, r, sort))->0); }
//@at loop3.end
proof { tab_push(g, 0, __p3 as int, tab(g, 0, __p3 as int)); }
//@end
pub open spec fn cnt(t: Pts<()>, d: DIST<R>, x: Seq<R>, w: int, r: R) -> spec_fn(int) -> Option<u32> { |i: int| ballsize(t, d, rowof(x, w, i), r) }
pub open spec fn cntr(t: Pts<()>, d: DIST<R>, x: Seq<R>, w: int, r: Seq<Option<R>>) -> spec_fn(int) -> Option<u32> { |i: int| match r[i] { Some(q) => ballsize(t, d, rowof(x, w, i), q), None => None } }
//@fn path=query_nb_cnt file=num_ext/knn.rs ret=o generics=<'a> types=T:R,f64:R,UInt32Type:u32,Float64Type:R,Kdt:Tree0
//@letty __acc0 Vec<Chunks<u32>>
//@letty __acc2 Vec<Option<u32>>
//@spec
requires tree.w() > 0, (data@.len() as int) % (tree.w() as int) == 0
ensures o@ == tab(cnt(tree.pts(), tree.d(), data@, tree.w() as int, r), 0, data@.len() as int / (tree.w() as int))
//@at let.nrows.0
let ghost g = cnt(tree.pts(), tree.d(), data@, tree.w() as int, r);
proof { whole(data.len() as int, ncols as int); }
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols,
  g == cnt(tree.pts(), tree.d(), data@, ncols as int, r), cat(__acc0@) == tab(g, 0, startof(splits@, nrows as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= tab(g, 0, 0)); }
//@at let.builder.0
proof { part_at(data@, ncols as int, nrows as int, offset as int, len as int); }
//@loop 1
invariant __i1 <= __n1, __n1 == len, offset + len <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, subslice@ == data@.subrange(offset * ncols, (offset + len) * ncols), subslice.len() == len * ncols,
  g == cnt(tree.pts(), tree.d(), data@, ncols as int, r), builder.s() == tab(g, offset as int, offset + __i1),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(builder.s() =~= tab(g, offset as int, offset as int)); }
//@at loop1.start
proof { row_in(data@, ncols as int, nrows as int, offset as int, len as int, __i1 as int); }
//@at loop1.end
proof { tab_push(g, offset as int, offset + __p1, tab(g, offset as int, offset + __p1)); }
//@at before.push.0
proof { tab_cat(__acc0@, __v0, g, offset as int, len as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols,
  g == cnt(tree.pts(), tree.d(), data@, ncols as int, r), __acc2@ == tab(g, 0, __i2 as int),
decreases __n2 - __i2
//@at loop2.pre
proof { assert(__acc2@ =~= tab(g, 0, 0)); }
//@at loop2.start
proof { row_at(data@, ncols as int, nrows as int, __i2 as int); }
//@at loop2.end
proof { tab_push(g, 0, __p2 as int, tab(g, 0, __p2 as int)); }
//@end
//@fn path=query_nb_cnt_w_radius file=num_ext/knn.rs ret=o generics=<'a> types=T:R,f64:R,UInt32Type:u32,Float64Type:R,Kdt:Tree0 opts=radius
//@letty __acc0 Vec<Chunks<u32>>
//@letty __acc2 Vec<Option<u32>>
//@spec
requires tree.w() > 0, data.len() == radius@.len() * tree.w()
ensures o@ == tab(cntr(tree.pts(), tree.d(), data@, tree.w() as int, radius@), 0, radius@.len() as int)
//@at let.nrows.0
let ghost g = cntr(tree.pts(), tree.d(), data@, tree.w() as int, radius@);
let ghost rs = radius@;
proof { div_at(data.len() as int, ncols as int, radius@.len() as int); }
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, radius@ == rs, rs.len() == nrows,
  g == cntr(tree.pts(), tree.d(), data@, ncols as int, rs), cat(__acc0@) == tab(g, 0, startof(splits@, nrows as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= tab(g, 0, 0)); }
//@at let.builder.0
proof { part_at(data@, ncols as int, nrows as int, offset as int, len as int); }
//@loop 1
invariant __i1 <= __n1, __n1 == len, offset + len <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, subslice@ == data@.subrange(offset * ncols, (offset + len) * ncols), subslice.len() == len * ncols, rad@ == rs.subrange(offset as int, offset + len), rs.len() == nrows,
  g == cntr(tree.pts(), tree.d(), data@, ncols as int, rs), builder.s() == tab(g, offset as int, offset + __i1),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(builder.s() =~= tab(g, offset as int, offset as int)); }
//@at loop1.start
proof { row_in(data@, ncols as int, nrows as int, offset as int, len as int, __i1 as int); }
//@at loop1.end
proof { tab_push(g, offset as int, offset + __p1, tab(g, offset as int, offset + __p1)); }
//@at before.push.0
proof { tab_cat(__acc0@, __v0, g, offset as int, len as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, __s1@ == rs, rs.len() == nrows,
  g == cntr(tree.pts(), tree.d(), data@, ncols as int, rs), __acc2@ == tab(g, 0, __i2 as int),
decreases __n2 - __i2
//@at loop2.pre
proof { assert(__acc2@ =~= tab(g, 0, 0)); }
//@at loop2.start
proof { row_at(data@, ncols as int, nrows as int, __i2 as int); }
//@at loop2.end
proof { tab_push(g, 0, __p2 as int, tab(g, 0, __p2 as int)); }
//@end
// ---- the rows that become points ----
pub open spec fn kept<A>(v: Seq<A>, x: Seq<R>, w: int, f: Seq<Option<bool>>, n: int) -> Seq<(A, Seq<R>)> decreases n { if n <= 0 { Seq::empty() } else if f[n - 1] == Some(true) { kept(v, x, w, f, n - 1).push((v[n - 1], rowof(x, w, n - 1))) } else { kept(v, x, w, f, n - 1) } }
pub open spec fn all<A>(v: Seq<A>, x: Seq<R>, w: int, n: int) -> Seq<(A, Seq<R>)> { Seq::new(n as nat, |i: int| (v[i], rowof(x, w, i))) }
pub open spec fn min3(a: int, b: int, c: int) -> int { if a <= b && a <= c { a } else if b <= c { b } else { c } }
pub open spec fn wide<A>(s: Seq<Leaf<R, A>>, w: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).row_vec@.len() == w }
//@fn path=row_major_slice_to_leaves_filtered file=num_ext/knn.rs ret=r opts=filter generics=<'a,A:Copy>
//@letty __acc0 Vec<Leaf<'a, R, A>>
//@spec
requires row_len > 0
ensures ptseq(r@) == kept(values@, slice@, row_len as int, filter@, min3(filter@.len() as int, values@.len() as int, slice@.len() as int / (row_len as int))), wide(r@, row_len as int)
//@loop 0
invariant __i0 <= __n0, __s1@ == filter@, __n0 <= __s1.len(), __n0 <= values.len(), __n0 <= slice.len() / row_len, row_len > 0, wide(__acc0@, row_len as int), ptseq(__acc0@) == kept(values@, slice@, row_len as int, filter@, __i0 as int),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(ptseq(__acc0@) =~= kept(values@, slice@, row_len as int, filter@, 0)); }
//@at let.__p0.0
proof { rows_at(slice.len() as int, row_len as int, __p0 as int); }
//@at let.f.0
proof { assert(*f == filter@[__p0 as int]); }
//@at call.push.0
proof { assert(ptseq(__acc0@) =~= kept(values@, slice@, row_len as int, filter@, __p0 + 1)); }
//@end
proof fn rows_at(len: int, w: int, i: int) requires w > 0, len >= 0, 0 <= i < len / w ensures 0 <= i * w, i * w + w <= len
{ assert(i * w >= 0) by(nonlinear_arith) requires i >= 0, w > 0; assert(i * w + w <= (len / w) * w) by(nonlinear_arith) requires i + 1 <= len / w, w > 0; assert((len / w) * w <= len) by(nonlinear_arith) requires w > 0; }
//@fn path=slice_to_leaves file=arkadia/utils.rs ret=r generics=<'a,A:Copy>
//@letty __acc0 Vec<Leaf<'a, R, A>>
//@spec
requires row_len > 0
ensures ptseq(r@) == all(values@, slice@, row_len as int, min3(values@.len() as int, values@.len() as int, slice@.len() as int / (row_len as int))), wide(r@, row_len as int)
//@loop 0
invariant __i0 <= __n0, __n0 <= values.len(), __n0 <= slice.len() / row_len, row_len > 0, __acc0.len() == __i0, wide(__acc0@, row_len as int), ptseq(__acc0@) == all(values@, slice@, row_len as int, __i0 as int),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(ptseq(__acc0@) =~= all(values@, slice@, row_len as int, 0)); }
//@at let.__p0.0
proof { rows_at(slice.len() as int, row_len as int, __p0 as int); }
//@at before.push.0
let ghost a0 = __acc0@;
//@at call.push.0
proof { assert(ptseq(__acc0@) =~= ptseq(a0).push(pt(__v0))); assert(all(values@, slice@, row_len as int, __p0 + 1) =~= all(values@, slice@, row_len as int, __p0 as int).push((values@[__p0 as int], rowof(slice@, row_len as int, __p0 as int)))); }
//@end
pub open spec fn unit(n: int) -> Seq<()> { Seq::new(n as nat, |i: int| ()) }
//@fn path=slice_to_empty_leaves file=arkadia/utils.rs ret=r generics=<'a>
//@letty __acc0 Vec<Leaf<'a, R, ()>>
//@spec
requires row_len > 0
ensures ptseq(r@) == all(unit(slice@.len() as int / (row_len as int)), slice@, row_len as int, slice@.len() as int / (row_len as int)), wide(r@, row_len as int)
//@loop 0
invariant __i0 <= __n0, __n0 == slice.len() / row_len, row_len > 0, __acc0.len() == __i0, wide(__acc0@, row_len as int), ptseq(__acc0@) == all(unit(__n0 as int), slice@, row_len as int, __i0 as int),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(ptseq(__acc0@) =~= all(unit(__n0 as int), slice@, row_len as int, 0)); }
//@at let.__p0.0
proof { rows_at(slice.len() as int, row_len as int, __p0 as int); }
//@at before.push.0
let ghost a0 = __acc0@;
//@at call.push.0
proof { assert(ptseq(__acc0@) =~= ptseq(a0).push(pt(__v0))); assert(all(unit(__n0 as int), slice@, row_len as int, __p0 + 1) =~= all(unit(__n0 as int), slice@, row_len as int, __p0 as int).push((unit(__n0 as int)[__p0 as int], rowof(slice@, row_len as int, __p0 as int)))); }
//@end
//@fn path=tree_from_leaves file=num_ext/knn.rs ret=r
//@sig fn tree_from_leaves<'a, A: Copy>(leaves: &mut Vec<Leaf<'a, R, A>>, ncols: usize, d: DIST<R>) -> (r: KDT<'a, R, A>)
//@spec
requires wide(old(leaves)@, ncols as int)
ensures r.w() == ncols, r.d() == d, r.pts() == ptseq(old(leaves)@).to_multiset()
//@at fn.start
proof { if leaves@.len() == 0 { assert(ptseq(leaves@) =~= Seq::empty()); Seq::<(A, Seq<R>)>::empty().to_multiset_ensures(); assert(ptseq(leaves@).to_multiset() =~= Multiset::empty()); } }
//@end
// a column of structs, read field by field
pub uninterp spec fn field<T>(s: Series, i: int) -> Seq<Option<T>>;
pub struct StructChunked { pub s: Series }
impl StructChunked {
  #[verifier::external_body] pub fn from_series<const N: usize>(n: Name, len: usize, f: [&Series; N]) -> (r: PolarsResult<StructChunked>) ensures r is Ok, forall|i: int| #![all_triggers] 0 <= i < N ==> field::<Seq<Cell>>(r->Ok_0.s, i) == sv::<Seq<Cell>>(*f@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn into_series(self) -> (r: Series) ensures r == self.s { unimplemented!() }
}
//@struct path=KNNAvgKwargs file=num_ext/knn.rs
//@struct path=KDTKwargs file=num_ext/knn.rs
//@struct path=KDTRadiusKwargs file=num_ext/knn.rs
pub open spec fn flags(s: Seq<Option<bool>>) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i] == Some(true)) }
pub open spec fn yes(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
pub open spec fn feats(s: Seq<Series>, k: int) -> Seq<Series> { s.subrange(k, s.len() as int) }
pub open spec fn vals<T>(s: Series) -> Seq<T> { Seq::new(sv::<T>(s).len(), |i: int| sv::<T>(s)[i]->0) }
pub open spec fn whole_col<T>(s: Series) -> bool { forall|c: Ca<T>| c@ == sv::<T>(s) ==> one(c) }
// what the user asks: candidates are the rows the mask keeps, asked rows the rows to evaluate
pub open spec fn candidates<A>(v: Series, keep: Series, x: Seq<R>, w: int) -> Pts<A> { kept(vals::<A>(v), x, w, sv::<bool>(keep), sv::<bool>(keep).len() as int).to_multiset() }
pub open spec fn asked(inputs: Seq<Series>, skip: bool, n: int) -> Seq<bool> { if skip { flags(sv::<bool>(inputs[2])) } else { yes(n) } }
pub open spec fn frame(inputs: Seq<Series>, k: int) -> bool { inputs.len() > k && numeric(feats(inputs, k)) && height(feats(inputs, k)) == sv::<u32>(inputs[0]).len() && height(feats(inputs, k)) == sv::<bool>(inputs[1]).len() && (k > 2 ==> height(feats(inputs, k)) == sv::<bool>(inputs[2]).len()) }
//@fn path=pl_knn_ptwise file=num_ext/knn.rs ret=r opts=eval_mask
//@letty __acc0 Vec<bool>
//@spec
requires kwargs.k < usize::MAX, isa::<u32>(inputs[0]), isa::<bool>(inputs[1]), kwargs.skip_eval ==> isa::<bool>(inputs[2]), frame(inputs@, if kwargs.skip_eval { 3 } else { 2 }), 
ensures ({ let s = if kwargs.skip_eval { 3int } else { 2int }; let x = matrix(feats(inputs@, s)); let w = inputs.len() - s; let n = sv::<u32>(inputs[0]).len() as int;
  &&& (r is Ok ==> metric(kwargs.metric, w as usize) is Some && sv::<Seq<Cell>>(r->Ok_0) == tab(knn_i(candidates::<u32>(inputs[0], inputs[1], x, w), metric(kwargs.metric, w as usize)->0, asked(inputs@, kwargs.skip_eval, n), x, w, kwargs.k as int, kwargs.max_bound, kwargs.epsilon), 0, n))
  &&& (r is Err ==> !whole_col::<u32>(inputs[0]) || metric(kwargs.metric, w as usize) is None) })
//@at let.id.1
proof { assert(id@ =~= vals::<u32>(inputs[0])); }
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == sv::<bool>(inputs[2]), __acc0@ == flags(__s1@).subrange(0, __i0 as int),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(__acc0@ =~= flags(__s1@).subrange(0, 0)); }
//@at call.push.0
proof { assert(__acc0@ =~= flags(__s1@).subrange(0, __p0 + 1)); }
//@at loop0.post
proof { assert(__acc0@ =~= flags(__s1@)); }
//@at let.eval_mask.1
proof { assert(eval_mask@ =~= asked(inputs@, skip_eval, nrows as int)); }
//@at let.data.0
proof { assert(inputs@.subrange(inputs_offset as int, inputs.len() as int) == feats(inputs@, if skip_eval { 3 } else { 2 })); div_at(data.len() as int, ncols as int, nrows as int); }
//@end
//@fn path=pl_knn_ptwise_w_dist file=num_ext/knn.rs ret=r opts=eval_mask
//@letty __acc0 Vec<bool>
//@spec
requires kwargs.k < usize::MAX, isa::<u32>(inputs[0]), isa::<bool>(inputs[1]), kwargs.skip_eval ==> isa::<bool>(inputs[2]), frame(inputs@, if kwargs.skip_eval { 3 } else { 2 }), 
ensures ({ let s = if kwargs.skip_eval { 3int } else { 2int }; let x = matrix(feats(inputs@, s)); let w = inputs.len() - s; let n = sv::<u32>(inputs[0]).len() as int; let t = candidates::<u32>(inputs[0], inputs[1], x, w); let d = metric(kwargs.metric, w as usize)->0; let q = asked(inputs@, kwargs.skip_eval, n);
  &&& (r is Ok ==> metric(kwargs.metric, w as usize) is Some && field::<Seq<Cell>>(r->Ok_0, 0) == tab(knn_i(t, d, q, x, w, kwargs.k as int, kwargs.max_bound, kwargs.epsilon), 0, n)
        && field::<Seq<Cell>>(r->Ok_0, 1) == tab(knn_d(t, d, q, x, w, kwargs.k as int, kwargs.max_bound, kwargs.epsilon), 0, n))
  &&& (r is Err ==> !whole_col::<u32>(inputs[0]) || metric(kwargs.metric, w as usize) is None) })
//@at let.id.1
proof { assert(id@ =~= vals::<u32>(inputs[0])); }
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == sv::<bool>(inputs[2]), __acc0@ == flags(__s1@).subrange(0, __i0 as int),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(__acc0@ =~= flags(__s1@).subrange(0, 0)); }
//@at call.push.0
proof { assert(__acc0@ =~= flags(__s1@).subrange(0, __p0 + 1)); }
//@at loop0.post
proof { assert(__acc0@ =~= flags(__s1@)); }
//@at let.eval_mask.1
proof { assert(eval_mask@ =~= asked(inputs@, skip_eval, nrows as int)); }
//@at let.data.0
proof { assert(inputs@.subrange(inputs_offset as int, inputs.len() as int) == feats(inputs@, if skip_eval { 3 } else { 2 })); div_at(data.len() as int, ncols as int, nrows as int); }
//@end
pub open spec fn frame1(inputs: Seq<Series>) -> bool { inputs.len() > 1 && numeric(feats(inputs, 1)) }
pub open spec fn everyone<A>(v: Seq<A>, x: Seq<R>, w: int) -> Pts<A> { all(v, x, w, v.len() as int).to_multiset() }
//@fn path=pl_query_radius_ptwise file=num_ext/knn.rs ret=r
//@spec
requires isa::<u32>(inputs[0]), frame1(inputs@), height(feats(inputs@, 1)) == sv::<u32>(inputs[0]).len()
ensures ({ let x = matrix(feats(inputs@, 1)); let w = inputs.len() - 1; let n = sv::<u32>(inputs[0]).len() as int;
  &&& (r is Ok ==> metric(kwargs.metric, w as usize) is Some && sv::<Seq<Cell>>(r->Ok_0) == tab(rad_i(everyone(vals::<u32>(inputs[0]), x, w), metric(kwargs.metric, w as usize)->0, x, w, kwargs.r, kwargs.sort), 0, n))
  &&& (r is Err ==> !whole_col::<u32>(inputs[0]) || metric(kwargs.metric, w as usize) is None) })
//@at let.id.1
proof { assert(id@ =~= vals::<u32>(inputs[0])); }
//@at let.data.0
proof { assert(inputs@.subrange(1, inputs.len() as int) == feats(inputs@, 1)); div_at(data.len() as int, ncols as int, id.len() as int); mod_at(data.len() as int, ncols as int, id.len() as int); }
//@end
proof fn mod_at(len: int, w: int, n: int) requires w > 0, len == n * w, n >= 0 ensures len % w == 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, w); }
//@fn path=pl_nb_cnt file=num_ext/knn.rs ret=r opts=radius types=T:R,f64:R,UInt32Type:u32,Float64Type:R,Kdt:Tree0
//@spec
requires isa::<R>(inputs[0]), frame1(inputs@)
ensures ({ let x = matrix(feats(inputs@, 1)); let w = inputs.len() - 1; let n = height(feats(inputs@, 1)) as int; let q = sv::<R>(inputs[0]); let d = metric(kwargs.metric, w as usize); let t = everyone(unit(n), x, w);
  &&& (r is Ok ==> q.len() == 1 && q[0] is None && sv::<u32>(r->Ok_0) == nulls::<u32>(n as nat) || d is Some && sv::<u32>(r->Ok_0) == (if q.len() == 1 { tab(cnt(t, d->0, x, w, q[0]->0), 0, n) } else { tab(cntr(t, d->0, x, w, q), 0, n) }))
  &&& (r is Err ==> d is None || q.len() != 1 && q.len() != n) })
//@at let.data.0
proof { assert(inputs@.subrange(1, inputs.len() as int) == feats(inputs@, 1)); div_at(data.len() as int, ncols as int, height(feats(inputs@, 1)) as int); mod_at(data.len() as int, ncols as int, height(feats(inputs@, 1)) as int); }
//@end
pub open spec fn avg_i(t: Pts<R>, d: DIST<R>, k: int, x: Seq<R>, w: int, lo: R, hi: R, m: KNNMethod) -> spec_fn(int) -> Option<R> { |i: int| avg(t, d, k + 1, rowof(x, w, i), lo, hi, m) }
//@fn path=pl_knn_avg file=num_ext/knn.rs ret=r
//@letty __acc0 Vec<Chunks<R>>
//@letty __acc1 Vec<Option<R>>
//@letty __acc2 Vec<Option<R>>
//@closure 0
-> (o: PolarsError)
//@spec
requires kwargs.k < usize::MAX, isa::<R>(inputs[0]), isa::<bool>(inputs[1]), inputs.len() > 2, numeric(feats(inputs@, 2)), height(feats(inputs@, 2)) == sv::<R>(inputs[0]).len(), height(feats(inputs@, 2)) == sv::<bool>(inputs[1]).len()
ensures ({ let x = matrix(feats(inputs@, 2)); let w = inputs.len() - 2; let n = sv::<R>(inputs[0]).len() as int; let d = metric(kwargs.metric, w as usize);
  &&& (r is Ok ==> d is Some && sv::<R>(r->Ok_0) == tab(avg_i(candidates::<R>(inputs[0], inputs[1], x, w), d->0, kwargs.k as int, x, w, kwargs.min_bound, kwargs.max_bound, how(kwargs.weighted, kwargs.min_bound)), 0, n))
  &&& (r is Err ==> !whole_col::<R>(inputs[0]) || d is None) })
//@at let.id.1
proof { assert(id@ =~= vals::<R>(inputs[0])); }
//@at let.data.0
let ghost mt = kwargs.metric;
proof { assert(inputs@.subrange(2, inputs.len() as int) == feats(inputs@, 2)); div_at(data.len() as int, ncols as int, nrows as int); }
//@at let.tree.0
let ghost g = avg_i(tree.pts(), tree.d(), k as int, data@, ncols as int, min_bound, max_bound, method);
proof { assert(tree.pts() == candidates::<R>(inputs[0], inputs[1], data@, ncols as int)); assert(tree.d() == metric(mt, ncols)->0); }
//@loop 0
invariant __i0 <= __n0, __n0 == splits.len(), __acc0.len() == __i0, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, k < usize::MAX,
  g == avg_i(tree.pts(), tree.d(), k as int, data@, ncols as int, min_bound, max_bound, method), cat(__acc0@) == tab(g, 0, startof(splits@, nrows as int, __i0 as int)),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(cat(__acc0@) =~= tab(g, 0, 0)); }
//@at loop0.start
proof { part_at(data@, ncols as int, nrows as int, splits[__i0 as int].0 as int, splits[__i0 as int].1 as int); }
//@loop 1
invariant __i1 <= __n1, __n1 == len, offset + len <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, k < usize::MAX, subslice@ == data@.subrange(offset * ncols, (offset + len) * ncols), subslice.len() == len * ncols,
  g == avg_i(tree.pts(), tree.d(), k as int, data@, ncols as int, min_bound, max_bound, method), __acc1@ == tab(g, offset as int, offset + __i1),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(__acc1@ =~= tab(g, offset as int, offset as int)); }
//@at loop1.start
proof { row_in(data@, ncols as int, nrows as int, offset as int, len as int, __i1 as int); }
//@at loop1.end
proof { tab_push(g, offset as int, offset + __p1, tab(g, offset as int, offset + __p1)); }
//@at before.push.1
proof { tab_cat(__acc0@, __v0, g, offset as int, len as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, k < usize::MAX,
  g == avg_i(tree.pts(), tree.d(), k as int, data@, ncols as int, min_bound, max_bound, method), __acc2@ == tab(g, 0, __i2 as int),
decreases __n2 - __i2
//@at loop2.pre
proof { assert(__acc2@ =~= tab(g, 0, 0)); }
//@at loop2.start
proof { row_at(data@, ncols as int, nrows as int, __i2 as int); }
//@at loop2.end
proof { tab_push(g, 0, __p2 as int, tab(g, 0, __p2 as int)); }
//@end
pub open spec fn kth(t: Pts<()>, d: DIST<R>, k: int, x: Seq<R>, w: int, hi: R, eps: R) -> spec_fn(int) -> Option<R> { |i: int| match near(t, d, k + 1, rowof(x, w, i), hi, eps) { Some(v) => if v.len() == 0 { None } else { Some(v.last().dist) }, None => None } }
//@fn path=pl_dist_from_kth_nb file=num_ext/knn.rs ret=r
//@letty __acc1 Vec<Chunks<R>>
//@closure 0
-> (o: R) ensures o == nb.dist
//@closure 1
-> (o: R) ensures o == nb.dist
//@spec
requires kwargs.k < usize::MAX, inputs.len() > 0, numeric(inputs@)
ensures ({ let x = matrix(inputs@); let w = inputs.len() as int; let n = height(inputs@) as int; let d = metric(kwargs.metric, w as usize); let t = everyone(unit(n), x, w);
  &&& (r is Ok ==> d is Some && sv::<R>(r->Ok_0) == tab(kth(t, d->0, kwargs.k as int, x, w, kwargs.max_bound, kwargs.epsilon), 0, n))
  &&& (r is Err ==> d is None) })
//@at let.data.0
let ghost h = height(inputs@) as int;
proof { div_at(data.len() as int, ncols as int, h); }
//@loop 0
invariant __i0 <= __n0, __n0 == data.len() / ncols, ncols > 0, __acc0.len() == __i0, wide(__acc0@, ncols as int), ptseq(__acc0@) == all(unit(__n0 as int), data@, ncols as int, __i0 as int),
decreases __n0 - __i0
//@at loop0.pre
proof { assert(ptseq(__acc0@) =~= all(unit(__n0 as int), data@, ncols as int, 0)); }
//@at let.__p0.0
proof { rows_at(data.len() as int, ncols as int, __p0 as int); }
//@at before.push.0
let ghost a0 = __acc0@;
//@at call.push.0
proof { assert(ptseq(__acc0@) =~= ptseq(a0).push(pt(__v0))); assert(all(unit(__n0 as int), data@, ncols as int, __p0 + 1) =~= all(unit(__n0 as int), data@, ncols as int, __p0 as int).push((unit(__n0 as int)[__p0 as int], rowof(data@, ncols as int, __p0 as int)))); }
//@at let.nrows.0
let ghost g = kth(tree.pts(), tree.d(), k as int, data@, ncols as int, kwargs.max_bound, kwargs.epsilon);
//@loop 1
invariant __i1 <= __n1, __n1 == splits.len(), __acc1.len() == __i1, parts(splits@, nrows as int), ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, k < usize::MAX,
  g == kth(tree.pts(), tree.d(), k as int, data@, ncols as int, kwargs.max_bound, kwargs.epsilon), cat(__acc1@) == tab(g, 0, startof(splits@, nrows as int, __i1 as int)),
decreases __n1 - __i1
//@at loop1.pre
proof { assert(cat(__acc1@) =~= tab(g, 0, 0)); }
//@at let.n.0
proof { part_at(data@, ncols as int, nrows as int, i as int, n as int); }
//@loop 2
invariant __i2 <= __n2, __n2 == n, i + n <= nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, k < usize::MAX, slice@ == data@.subrange(i * ncols, (i + n) * ncols), slice.len() == n * ncols,
  g == kth(tree.pts(), tree.d(), k as int, data@, ncols as int, kwargs.max_bound, kwargs.epsilon), builder.s() == tab(g, i as int, i + __i2),
decreases __n2 - __i2
//@at loop2.pre
proof { assert(builder.s() =~= tab(g, i as int, i as int)); }
//@at loop2.start
proof { row_in(data@, ncols as int, nrows as int, i as int, n as int, __i2 as int); }
//@at loop2.end
proof { tab_push(g, i as int, i + __p2, tab(g, i as int, i + __p2)); }
//@at before.push.1
proof { tab_cat(__acc1@, __v1, g, i as int, n as int); }
//@loop 3
invariant __i3 <= __n3, __n3 == nrows, ncols == tree.w(), ncols > 0, data.len() == nrows * ncols, k < usize::MAX,
  g == kth(tree.pts(), tree.d(), k as int, data@, ncols as int, kwargs.max_bound, kwargs.epsilon), builder.s() == tab(g, 0, __i3 as int),
decreases __n3 - __i3
//@at loop3.pre
proof { assert(builder.s() =~= tab(g, 0, 0)); }
//@at loop3.start
proof { row_at(data@, ncols as int, nrows as int, __i3 as int); }
//@at loop3.end
proof { tab_push(g, 0, __p3 as int, tab(g, 0, __p3 as int)); }
//@end
}
fn main(){}
