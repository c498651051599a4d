verus! {
// ---- trusted: hashbrown::HashSet<&[u8]> as a finite set of byte sequences ----
impl Str {
  pub uninterp spec fn b(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b().len(), r <= i64::MAX { unimplemented!() }
  #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
}
pub struct Windows<'a> { pub s: &'a [u8], pub n: usize }
#[verifier::external_body] pub fn vx_windows<'a>(s: &'a [u8], n: usize) -> (r: Windows<'a>) requires n > 0 ensures r.s == s, r.n == n { unimplemented!() }
pub trait Items { spec fn items(&self) -> Set<Seq<u8>>; }
impl<'a> Items for Windows<'a> { open spec fn items(&self) -> Set<Seq<u8>> { grams(self.s@, self.n as int) } }
impl<'a> Items for [&'a [u8]; 1] { open spec fn items(&self) -> Set<Seq<u8>> { Set::empty().insert(self@[0]@) } }
pub open spec fn grams(s: Seq<u8>, n: int) -> Set<Seq<u8>> { if s.len() < n { Set::empty() } else { Seq::new((s.len() - n + 1) as nat, |i: int| s.subrange(i, i + n)).to_set() } }
#[verifier::external_body] pub struct HashSet { p: usize }
pub struct Inter<'a> { pub a: &'a HashSet, pub b: &'a HashSet }
impl HashSet {
  pub uninterp spec fn s(&self) -> Set<Seq<u8>>;
  #[verifier::external_body] pub fn from_iter<I: Items>(x: I) -> (r: HashSet) ensures r.s() == x.items() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.s().len(), r <= i32::MAX { unimplemented!() }
  #[verifier::external_body] pub fn intersection<'a>(&'a self, o: &'a HashSet) -> (r: Inter<'a>) ensures r.a == self, r.b == o { unimplemented!() }
}
impl<'a> Inter<'a> { #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.a.s().intersect(self.b.s()).len() { unimplemented!() } }
}
verus! {
pub assume_specification [usize::abs_diff] (_0: usize, _1: usize) -> (r: usize) ensures r == (if _0 >= _1 { _0 - _1 } else { _1 - _0 });
}
