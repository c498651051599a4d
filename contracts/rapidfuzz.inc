verus! {
// ---- trusted: rapidfuzz computes the named measure; a batch comparator of r gives the measure of (s, r) for s ----
pub uninterp spec fn lev(a: &Str, b: &Str) -> usize;
pub uninterp spec fn levsim(a: &Str, b: &Str) -> R;
pub uninterp spec fn dlev(a: &Str, b: &Str) -> usize;
pub uninterp spec fn dlevsim(a: &Str, b: &Str) -> R;
pub uninterp spec fn osad(a: &Str, b: &Str) -> usize;
pub uninterp spec fn osasim(a: &Str, b: &Str) -> R;
pub uninterp spec fn lcs(a: &Str, b: &Str) -> usize;
pub uninterp spec fn lcssim(a: &Str, b: &Str) -> R;
pub uninterp spec fn jarosim(a: &Str, b: &Str) -> R;
pub uninterp spec fn jw(a: &Str, b: &Str, w: R) -> R;
pub uninterp spec fn indelsim(a: &Str, b: &Str) -> R;
pub uninterp spec fn ham(a: &Str, b: &Str) -> Option<usize>; // none: lengths differ
pub uninterp spec fn hampad(a: &Str, b: &Str) -> usize;
pub open spec fn within(d: usize, cut: usize) -> Option<usize> { if d <= cut { Some(d) } else { None } }
#[verifier::external_body] pub fn ratio(a: Chars, b: Chars) -> (r: R) ensures r == indelsim(a.s, b.s) { unimplemented!() }
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (o: T) ensures o == (match r { Ok(x) => x, Err(_) => d });
}
pub mod levenshtein { use super::*; verus! {
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn distance(&self, s: Chars) -> (o: usize) ensures o == lev(s.s, self.r) { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity(&self, s: Chars) -> (o: R) ensures o == levsim(s.s, self.r) { unimplemented!() }
  #[verifier::external_body] pub fn distance_with_args(&self, s: Chars, a: &Args) -> (o: Option<usize>) ensures o == within(lev(s.s, self.r), a.cut) { unimplemented!() }
}
#[verifier::external_body] pub fn distance(a: Chars, b: Chars) -> (o: usize) ensures o == lev(a.s, b.s) { unimplemented!() }
#[verifier::external_body] pub fn normalized_similarity(a: Chars, b: Chars) -> (o: R) ensures o == levsim(a.s, b.s) { unimplemented!() }
pub struct Args { pub cut: usize }
impl Args { #[verifier::external_body] pub fn default() -> Args { unimplemented!() }
  #[verifier::external_body] pub fn score_cutoff(self, c: usize) -> (r: Args) ensures r.cut == c { unimplemented!() } }
#[verifier::external_body] pub fn distance_with_args(a: Chars, b: Chars, g: &Args) -> (o: Option<usize>) ensures o == within(lev(a.s, b.s), g.cut) { unimplemented!() }
} }
pub mod damerau_levenshtein { use super::*; verus! {
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn distance(&self, s: Chars) -> (o: usize) ensures o == dlev(s.s, self.r) { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity(&self, s: Chars) -> (o: R) ensures o == dlevsim(s.s, self.r) { unimplemented!() }
}
#[verifier::external_body] pub fn distance(a: Chars, b: Chars) -> (o: usize) ensures o == dlev(a.s, b.s) { unimplemented!() }
#[verifier::external_body] pub fn normalized_similarity(a: Chars, b: Chars) -> (o: R) ensures o == dlevsim(a.s, b.s) { unimplemented!() }
} }
pub mod osa { use super::*; verus! {
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn distance(&self, s: Chars) -> (o: usize) ensures o == osad(s.s, self.r) { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity(&self, s: Chars) -> (o: R) ensures o == osasim(s.s, self.r) { unimplemented!() }
}
#[verifier::external_body] pub fn distance(a: Chars, b: Chars) -> (o: usize) ensures o == osad(a.s, b.s) { unimplemented!() }
#[verifier::external_body] pub fn normalized_similarity(a: Chars, b: Chars) -> (o: R) ensures o == osasim(a.s, b.s) { unimplemented!() }
} }
pub mod lcs_seq { use super::*; verus! {
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn distance(&self, s: Chars) -> (o: usize) ensures o == lcs(s.s, self.r) { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity(&self, s: Chars) -> (o: R) ensures o == lcssim(s.s, self.r) { unimplemented!() }
}
#[verifier::external_body] pub fn distance(a: Chars, b: Chars) -> (o: usize) ensures o == lcs(a.s, b.s) { unimplemented!() }
#[verifier::external_body] pub fn normalized_similarity(a: Chars, b: Chars) -> (o: R) ensures o == lcssim(a.s, b.s) { unimplemented!() }
} }
pub mod jaro { use super::*; verus! {
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity(&self, s: Chars) -> (o: R) ensures o == jarosim(s.s, self.r) { unimplemented!() }
}
#[verifier::external_body] pub fn normalized_similarity(a: Chars, b: Chars) -> (o: R) ensures o == jarosim(a.s, b.s) { unimplemented!() }
} }
pub mod indel { use super::*; verus! {
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity(&self, s: Chars) -> (o: R) ensures o == indelsim(s.s, self.r) { unimplemented!() }
}
#[verifier::external_body] pub fn normalized_similarity(a: Chars, b: Chars) -> (o: R) ensures o == indelsim(a.s, b.s) { unimplemented!() }
} }
pub mod jaro_winkler { use super::*; verus! {
pub struct Args { pub w: R }
impl Args { #[verifier::external_body] pub fn default() -> Args { unimplemented!() }
  #[verifier::external_body] pub fn prefix_weight(self, w: R) -> (r: Args) ensures r.w == w { unimplemented!() } }
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn similarity_with_args(&self, s: Chars, g: &Args) -> (o: R) ensures o == jw(s.s, self.r, g.w) { unimplemented!() }
  #[verifier::external_body] pub fn normalized_similarity_with_args(&self, s: Chars, g: &Args) -> (o: R) ensures o == jw(s.s, self.r, g.w) { unimplemented!() }
}
#[verifier::external_body] pub fn similarity_with_args(a: Chars, b: Chars, g: &Args) -> (o: R) ensures o == jw(a.s, b.s, g.w) { unimplemented!() }
#[verifier::external_body] pub fn normalized_similarity_with_args(a: Chars, b: Chars, g: &Args) -> (o: R) ensures o == jw(a.s, b.s, g.w) { unimplemented!() }
} }
// Hamming: an error when the lengths differ; padding turns the length difference into mismatches, a cutoff gives None beyond it
pub mod hamming { use super::*; verus! {
#[derive(Debug)] pub struct Error { pub x: usize }
pub struct Args { pub x: usize }
pub struct Padded { pub x: usize }
pub struct Cut { pub cut: usize }
impl Args { #[verifier::external_body] pub fn default() -> Args { unimplemented!() }
  #[verifier::external_body] pub fn score_cutoff(self, c: usize) -> (r: Cut) ensures r.cut == c { unimplemented!() }
  #[verifier::external_body] pub fn pad(self, p: bool) -> (r: Padded) requires p { unimplemented!() } }
impl Cut { #[verifier::external_body] pub fn score_cutoff(self, c: usize) -> (r: Cut) ensures r.cut == c { unimplemented!() } }
pub trait Score { type Out; spec fn out(&self, a: &Str, b: &Str) -> Self::Out; }
impl Score for Padded { type Out = usize; open spec fn out(&self, a: &Str, b: &Str) -> usize { hampad(a, b) } }
impl Score for Cut { type Out = Result<Option<usize>, Error>; open spec fn out(&self, a: &Str, b: &Str) -> Result<Option<usize>, Error> { match ham(a, b) { Some(d) => Ok(within(d, self.cut)), None => Err(Error { x: 0 }) } } }
pub open spec fn outcome(d: Option<usize>) -> Result<usize, Error> { match d { Some(d) => Ok(d), None => Err(Error { x: 0 }) } }
pub struct BatchComparator<'a> { pub r: &'a Str }
impl<'a> BatchComparator<'a> {
  #[verifier::external_body] pub fn new(r: Chars<'a>) -> (b: Self) ensures b.r == r.s { unimplemented!() }
  #[verifier::external_body] pub fn distance(&self, s: Chars) -> (o: Result<usize, Error>) ensures o == outcome(ham(s.s, self.r)) { unimplemented!() }
  #[verifier::external_body] pub fn distance_with_args<A: Score>(&self, s: Chars, g: &A) -> (o: A::Out) ensures o == g.out(s.s, self.r) { unimplemented!() }
}
#[verifier::external_body] pub fn distance(a: Chars, b: Chars) -> (o: Result<usize, Error>) ensures o == outcome(ham(a.s, b.s)) { unimplemented!() }
#[verifier::external_body] pub fn distance_with_args<A: Score>(a: Chars, b: Chars, g: &A) -> (o: A::Out) ensures o == g.out(a.s, b.s) { unimplemented!() }
} }
