verus!{
// ---- trusted contracts of standard-library functions (vstd has none for these) ----
pub assume_specification<T: ?Sized, A> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
  where A: std::alloc::Allocator ensures r == &**b;
pub open spec fn vx_part<T, P: FnMut(&T) -> bool>(s: Seq<T>, p: P, r: int) -> bool {
  0 <= r <= s.len() && (forall|i: int| 0 <= i < r ==> call_ensures(p, (&#[trigger] s[i],), true)) && (forall|i: int| r <= i < s.len() ==> call_ensures(p, (&#[trigger] s[i],), false)) }
pub trait VxSlice<T> : Sized {
  spec fn vx_seq(&self) -> Seq<T>;
  fn partition_point<P: FnMut(&T) -> bool>(&self, p: P) -> (r: usize)
    requires forall|i: int| 0 <= i < self.vx_seq().len() ==> call_requires(p, (&#[trigger] self.vx_seq()[i],)),
    ensures r <= self.vx_seq().len(),
      (forall|i: int, j: int| 0 <= i < j < self.vx_seq().len() ==> !(#[trigger] call_ensures(p, (&self.vx_seq()[i],), false) && #[trigger] call_ensures(p, (&self.vx_seq()[j],), true))) ==> vx_part(self.vx_seq(), p, r as int);
  fn sort_unstable_by_key<K: Ord, P: FnMut(&T) -> K>(&mut self, p: P)
    requires forall|i: int| 0 <= i < old(self).vx_seq().len() ==> call_requires(p, (&#[trigger] old(self).vx_seq()[i],)),
    ensures final(self).vx_seq().to_multiset() == old(self).vx_seq().to_multiset(), final(self).vx_seq().len() == old(self).vx_seq().len();
  fn sort_unstable_by<P: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, p: P)
    requires forall|i: int, j: int| 0 <= i < old(self).vx_seq().len() && 0 <= j < old(self).vx_seq().len() ==> call_requires(p, (&#[trigger] old(self).vx_seq()[i], &#[trigger] old(self).vx_seq()[j])),
    ensures final(self).vx_seq().to_multiset() == old(self).vx_seq().to_multiset(), final(self).vx_seq().len() == old(self).vx_seq().len();
  fn split_at(&self, k: usize) -> (r: (&[T], &[T]))
    requires k <= self.vx_seq().len(), ensures r.0@ == self.vx_seq().take(k as int), r.1@ == self.vx_seq().skip(k as int);
}
impl<T> VxSlice<T> for Vec<T> {
  open spec fn vx_seq(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn partition_point<P: FnMut(&T) -> bool>(&self, p: P) -> (r: usize) { unimplemented!() }
  #[verifier::external_body]
  fn sort_unstable_by_key<K: Ord, P: FnMut(&T) -> K>(&mut self, p: P) { unimplemented!() }
  #[verifier::external_body]
  fn sort_unstable_by<P: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, p: P) { unimplemented!() }
  #[verifier::external_body]
  fn split_at(&self, k: usize) -> (r: (&[T], &[T])) { unimplemented!() }
}
// std::iter::repeat(x).take(n) as the argument of Vec::extend
pub struct VxRepeat<T> { pub x: T }
pub struct VxTake<T> { pub x: T, pub n: usize }
pub fn vx_repeat<T>(x: T) -> (r: VxRepeat<T>) ensures r.x == x { VxRepeat { x } }
impl<T> VxRepeat<T> { pub fn take(self, n: usize) -> (r: VxTake<T>) ensures r.x == self.x, r.n == n { VxTake { x: self.x, n } } }
#[verifier::external_body] pub fn vx_extend<T: Copy>(v: &mut Vec<T>, t: VxTake<T>) ensures final(v)@ == old(v)@ + Seq::new(t.n as nat, |i: int| t.x) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec<T: Clone>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
pub assume_specification<T, A> [std::vec::Vec::<T, A>::shrink_to_fit] (v: &mut std::vec::Vec<T, A>)
  where A: std::alloc::Allocator ensures final(v)@ == old(v)@;
pub proof fn vx_vec_len<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX { assert(v.len() <= usize::MAX); }
// by-value iteration over a vector hands out its elements
#[verifier::external_body] pub fn vx_own<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
}
verus!{
// v[range].copy_from_slice(s)
#[verifier::external_body] pub fn vx_copy_range<T: Copy>(v: &mut Vec<T>, rg: core::ops::Range<usize>, s: &[T])
  requires rg.start <= rg.end <= old(v)@.len(), rg.end - rg.start == s@.len()
  ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if rg.start <= i < rg.end { s@[i - rg.start] } else { old(v)@[i] }) { v[rg].copy_from_slice(s) }
}
