//@include prelude_real.rs
//@include cols.rs
//@default types=f64:R,f32:R,UInt32Type:u32,StringChunked:Strings strip=R parcols=1
verus!{
// ---- trusted: the generator is a function of its seed; what a draw from each distribution can be (rand, rand_distr) ----
pub struct StdRng { pub x: usize }
// state of the generator: a seed fixes it
pub uninterp spec fn rst(r: StdRng) -> int;
pub uninterp spec fn seeded(s: u64) -> int;
impl StdRng {
  #[verifier::external_body] pub fn seed_from_u64(s: u64) -> (r: StdRng) ensures rst(r) == seeded(s) { unimplemented!() }
  #[verifier::external_body] pub fn from_entropy() -> (r: StdRng) { unimplemented!() }
  #[verifier::external_body] pub fn sample<T, D: Dist<T>>(&mut self, d: D) -> (r: T) ensures d.has(r), r == draw1::<T, D>(rst(*old(self)), d), rst(*final(self)) == snext::<D>(rst(*old(self)), d) { unimplemented!() }
  #[verifier::external_body] pub fn sample_iter<T, D: Dist<T>>(&mut self, d: D) -> (r: Draws<T, D>) ensures r.st() == rst(*old(self)), r.d() == d { unimplemented!() }
}
// one draw, and the state after it
pub uninterp spec fn draw1<T, D>(st: int, d: D) -> T;
pub uninterp spec fn snext<D>(st: int, d: D) -> int;
pub uninterp spec fn slen(s: Str) -> int;
pub uninterp spec fn alnum(s: Str) -> bool;
pub uninterp spec fn sstr(st: int, n: int) -> Str;
pub uninterp spec fn snexts(st: int, n: int) -> int;
pub struct Alphanumeric;
impl Alphanumeric { #[verifier::external_body] pub fn sample_string(&self, rng: &mut StdRng, n: usize) -> (r: Str) ensures r == sstr(rst(*old(rng)), n as int), slen(r) == n, alnum(r), rst(*final(rng)) == snexts(rst(*old(rng)), n as int) { unimplemented!() } }
pub trait Dist<T>: Sized { spec fn has(self, x: T) -> bool; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(D)] pub struct Draws<T, D> { p: std::marker::PhantomData<(T, D)> }
pub uninterp spec fn draw<T, D>(st: int, d: D, i: int) -> T;
impl<T, D: Dist<T>> Draws<T, D> {
  pub uninterp spec fn st(self) -> int;
  pub uninterp spec fn d(self) -> D;
  #[verifier::external_body] pub fn take(self, n: usize) -> (r: Values<T>) ensures r@ == draws::<T, D>(self.st(), self.d(), n as nat), forall|i: int| 0 <= i < n ==> self.d().has(#[trigger] r@[i]) { unimplemented!() }
}
pub open spec fn draws<T, D>(st: int, d: D, n: nat) -> Seq<T> { Seq::new(n, |i: int| draw::<T, D>(st, d, i)) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Values<T> { p: std::marker::PhantomData<T> }
impl<T> View for Values<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn some<T>(s: Seq<T>) -> Seq<Option<T>> { Seq::new(s.len(), |i: int| Some(s[i])) }
pub trait Vals<T>: Sized { spec fn vs(self) -> Seq<T>; }
impl<T> Vals<T> for Values<T> { open spec fn vs(self) -> Seq<T> { self@ } }
impl<T> Vals<T> for Vec<T> { open spec fn vs(self) -> Seq<T> { self@ } }
impl<T> Ca<T> {
  #[verifier::external_body] pub fn from_iter_values<I: Vals<T>>(n: Name, v: I) -> (r: Ca<T>) ensures r@ == some(v.vs()) { unimplemented!() }
  #[verifier::external_body] pub fn from_vec(n: Name, v: Vec<T>) -> (r: Ca<T>) ensures r@ == some(v@) { unimplemented!() }
}
pub type ChunkedArray<T> = Ca<T>;
pub type Strings = Ca<Str>;
pub type Float32Chunked = Ca<R>;
pub type Int32Chunked = Ca<i32>;
pub type UInt64Chunked = Ca<u64>;
pub uninterp spec fn dt(s: Series) -> DataType;
impl Series {
  #[verifier::external_body] pub fn dtype<'a>(&'a self) -> (r: &'a DataType) ensures *r == dt(*self), (dt(*self) is Float64) == isa::<R>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn f32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<R>>) ensures (r is Ok) == (dt(*self) is Float32), r is Ok ==> r->Ok_0@ == sv::<R>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn i32<'a>(&'a self) -> (r: PolarsResult<&'a Ca<i32>>) ensures (r is Ok) == isa::<i32>(*self), r is Ok ==> r->Ok_0@ == sv::<i32>(*self) { unimplemented!() }
  #[verifier::external_body] pub fn u64<'a>(&'a self) -> (r: PolarsResult<&'a Ca<u64>>) ensures (r is Ok) == isa::<u64>(*self), r is Ok ==> r->Ok_0@ == sv::<u64>(*self) { unimplemented!() }
}
// uniform on [lo, hi) or [lo, hi]; `new` panics on an empty range
pub trait Ends: Sized { spec fn lt(self, o: Self) -> bool; spec fn le(self, o: Self) -> bool; }
impl Ends for i32 { open spec fn lt(self, o: i32) -> bool { self < o } open spec fn le(self, o: i32) -> bool { self <= o } }
impl Ends for usize { open spec fn lt(self, o: usize) -> bool { self < o } open spec fn le(self, o: usize) -> bool { self <= o } }
impl Ends for R { open spec fn lt(self, o: R) -> bool { self@ < o@ } open spec fn le(self, o: R) -> bool { self@ <= o@ } }
#[derive(Clone, Copy)] pub struct Uniform<T> { pub lo: T, pub hi: T, pub incl: bool }
impl<T: Ends> Dist<T> for Uniform<T> { open spec fn has(self, x: T) -> bool { self.lo.le(x) && (if self.incl { x.le(self.hi) } else { x.lt(self.hi) }) } }
impl<T: Ends> Uniform<T> {
  #[verifier::external_body] pub fn sample(&self, rng: &mut StdRng) -> (r: T) ensures self.has(r), r == draw1::<T, Uniform<T>>(rst(*old(rng)), *self), rst(*final(rng)) == snext::<Uniform<T>>(rst(*old(rng)), *self) { unimplemented!() }
  #[verifier::external_body] pub fn new(lo: T, hi: T) -> (r: Uniform<T>) requires lo.lt(hi) ensures r == (Uniform { lo, hi, incl: false }) { unimplemented!() }
  #[verifier::external_body] pub fn new_inclusive(lo: T, hi: T) -> (r: Uniform<T>) requires lo.le(hi) ensures r == (Uniform { lo, hi, incl: true }) { unimplemented!() }
}
pub struct DErr { pub x: usize }
impl DErr { #[verifier::external_body] pub fn to_string(&self) -> Name { unimplemented!() } }
impl Name { #[verifier::external_body] pub fn into(self) -> Name { unimplemented!() } }
#[verifier::external] impl std::fmt::Debug for DErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub struct Binomial { pub n: u64, pub p: R }
impl Dist<u64> for Binomial { open spec fn has(self, x: u64) -> bool { x <= self.n } }
impl Binomial { #[verifier::external_body] pub fn new(n: u64, p: R) -> (r: Result<Binomial, DErr>) ensures (r is Ok) == (0real <= p@ <= 1real), r is Ok ==> r->Ok_0 == (Binomial { n, p }) { unimplemented!() } }
pub struct Exp1;
pub struct Exp { pub l: R }
impl Dist<R> for Exp1 { open spec fn has(self, x: R) -> bool { x@ >= 0real } }
impl Dist<R> for Exp { open spec fn has(self, x: R) -> bool { x@ >= 0real } }
impl Exp { #[verifier::external_body] pub fn new(l: R) -> (r: Result<Exp, DErr>) ensures (r is Ok) == (l@ > 0real), r is Ok ==> r->Ok_0 == (Exp { l }) { unimplemented!() } }
pub struct StandardNormal;
pub struct Normal { pub m: R, pub s: R }
impl Dist<R> for StandardNormal { open spec fn has(self, x: R) -> bool { true } }
impl Dist<R> for Normal { open spec fn has(self, x: R) -> bool { true } }
impl Normal { #[verifier::external_body] pub fn new(m: R, s: R) -> (r: Result<Normal, DErr>) ensures (r is Ok), r is Ok ==> r->Ok_0 == (Normal { m, s }) { unimplemented!() } }
// the arguments every expression passes: one value each, the seed possibly null
pub open spec fn one<T>(s: Series) -> bool { isa::<T>(s) && sv::<T>(s).len() >= 1 && sv::<T>(s)[0] is Some }
pub open spec fn v0<T>(s: Series) -> T { sv::<T>(s)[0]->0 }
pub open spec fn sd(s: Series) -> Option<u64> { sv::<u64>(s)[0] }
pub open spec fn sdok(s: Series) -> bool { isa::<u64>(s) && sv::<u64>(s).len() >= 1 }
// n values, all present and all in the support
pub open spec fn within<T, D: Dist<T>>(s: Seq<Option<T>>, n: nat, d: D) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) is Some && d.has(s[i]->0) }
//@fn file=stats/sample.rs path=rng_from_seed ret=r
//@spec
ensures seed is Some ==> rst(r) == seeded(seed->0)
//@end
// the n-th string: a length, then that many characters
pub open spec fn strst(st: int, d: Uniform<usize>, n: int) -> int decreases n { if n <= 0 { st } else { let s = strst(st, d, n - 1); snexts(snext(s, d), draw1::<usize, Uniform<usize>>(s, d) as int) } }
pub open spec fn strat(st: int, d: Uniform<usize>, i: int) -> Str { let s = strst(st, d, i); sstr(snext(s, d), draw1::<usize, Uniform<usize>>(s, d) as int) }
pub open spec fn ilo(a: i32, b: i32) -> i32 { if a <= b { a } else { b } }
pub open spec fn ihi(a: i32, b: i32) -> i32 { if a <= b { b } else { a } }
//@fn file=stats/sample.rs path=pl_rand_int ret=r
//@spec
requires inputs.len() == 4, one::<u32>(inputs[0]), one::<i32>(inputs[1]), one::<i32>(inputs[2]), sdok(inputs[3])
ensures r is Ok, ({ let (n, a, b) = (v0::<u32>(inputs[0]) as nat, v0::<i32>(inputs[1]), v0::<i32>(inputs[2])); let o = sv::<i32>(r->Ok_0); let d = Uniform { lo: ilo(a, b), hi: ihi(a, b), incl: false };
  if a == b { o =~= Seq::new(n, |i: int| Some(a)) } else { within(o, n, d) && (sd(inputs[3]) is Some ==> o =~= some(draws::<i32, Uniform<i32>>(seeded(sd(inputs[3])->0), d, n))) } })
//@end
//@fn file=stats/sample.rs path=pl_rand_binomial ret=r
//@spec
requires inputs.len() == 4, one::<u32>(inputs[0]), one::<u32>(inputs[1]), one::<R>(inputs[2]), sdok(inputs[3])
ensures (r is Ok) == (0real <= v0::<R>(inputs[2])@ <= 1real), r is Ok ==> ({ let n = v0::<u32>(inputs[0]) as nat; let o = sv::<u64>(r->Ok_0); let d = Binomial { n: v0::<u32>(inputs[1]) as u64, p: v0::<R>(inputs[2]) };
  within(o, n, d) && (sd(inputs[3]) is Some ==> o =~= some(draws::<u64, Binomial>(seeded(sd(inputs[3])->0), d, n))) })
//@end
//@fn file=stats/sample.rs path=pl_rand_exp ret=r
//@spec
requires inputs.len() == 3, one::<u32>(inputs[0]), one::<R>(inputs[1]), sdok(inputs[2])
ensures (r is Ok) == (v0::<R>(inputs[1])@ > 0real), r is Ok ==> ({ let n = v0::<u32>(inputs[0]) as nat; let o = sv::<R>(r->Ok_0); let l = v0::<R>(inputs[1]);
  within(o, n, Exp1) && (sd(inputs[2]) is Some ==> (l@ == 1real && o =~= some(draws::<R, Exp1>(seeded(sd(inputs[2])->0), Exp1, n))) || o =~= some(draws::<R, Exp>(seeded(sd(inputs[2])->0), Exp { l }, n))) })
//@end
//@fn file=stats/sample.rs path=pl_random ret=r
//@spec
requires inputs.len() == 4, one::<u32>(inputs[0]), one::<R>(inputs[1]), one::<R>(inputs[2]), sdok(inputs[3]), v0::<R>(inputs[1])@ < v0::<R>(inputs[2])@
ensures r is Ok, ({ let n = v0::<u32>(inputs[0]) as nat; let o = sv::<R>(r->Ok_0); let d = Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false };
  within(o, n, d) && (sd(inputs[3]) is Some ==> o =~= some(draws::<R, Uniform<R>>(seeded(sd(inputs[3])->0), d, n))) })
//@end
//@fn file=stats/sample.rs path=pl_rand_normal ret=r
//@spec
requires inputs.len() == 4, one::<u32>(inputs[0]), one::<R>(inputs[1]), one::<R>(inputs[2]), sdok(inputs[3])
ensures r is Ok, ({ let n = v0::<u32>(inputs[0]) as nat; let o = sv::<R>(r->Ok_0); let (m, s) = (v0::<R>(inputs[1]), v0::<R>(inputs[2]));
  within(o, n, StandardNormal) && (sd(inputs[3]) is Some ==> (m@ == 0real && s@ == 1real && o =~= some(draws::<R, StandardNormal>(seeded(sd(inputs[3])->0), StandardNormal, n))) || o =~= some(draws::<R, Normal>(seeded(sd(inputs[3])->0), Normal { m, s }, n))) })
//@end
// noise is drawn for present values only, in order
pub open spec fn nst<D>(st: int, d: D, s: Seq<Option<R>>, n: int) -> int decreases n { if n <= 0 { st } else if s[n - 1] is Some { snext::<D>(nst(st, d, s, n - 1), d) } else { nst(st, d, s, n - 1) } }
pub open spec fn noisy<D: Dist<R>>(o: Seq<Option<R>>, s: Seq<Option<R>>, d: D, f: spec_fn(real, real) -> real, n: int) -> bool {
  o.len() == n && forall|i: int| 0 <= i < n ==> (match s[i] { None => (#[trigger] o[i]) is None, Some(x) => o[i] is Some && exists|e: R| #[trigger] d.has(e) && o[i]->0@ == f(x@, e@) }) }
pub open spec fn seen<D: Dist<R>>(o: Seq<Option<R>>, st: int, s: Seq<Option<R>>, d: D, f: spec_fn(real, real) -> real, n: int) -> bool {
  forall|i: int| 0 <= i < n && s[i] is Some ==> (#[trigger] o[i]) is Some && o[i]->0@ == f(s[i]->0@, draw1::<R, D>(nst(st, d, s, i), d)@) }
pub open spec fn plus() -> spec_fn(real, real) -> real { |x: real, e: real| x + e }
pub open spec fn scaled(s: real) -> spec_fn(real, real) -> real { |x: real, e: real| x + s * e }
//@fn file=stats/sample.rs path=pl_perturb ret=r
//@spec
requires inputs.len() == 4, one::<R>(inputs[1]), one::<R>(inputs[2]), sdok(inputs[3]), v0::<R>(inputs[1])@ < v0::<R>(inputs[2])@
ensures (r is Ok) == (dt(inputs[0]) is Float32 || dt(inputs[0]) is Float64), r is Ok ==> ({ let s = sv::<R>(inputs[0]); let o = sv::<R>(r->Ok_0); let d = Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false };
  noisy(o, s, d, plus(), s.len() as int) && (sd(inputs[3]) is Some ==> seen(o, seeded(sd(inputs[3])->0), s, d, plus(), s.len() as int)) })
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == sv::<R>(inputs[0]), dist == (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), noisy(__acc0@, __s1@, (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), plus(), __i0 as int), sd(inputs[3]) is Some ==> rst(rng) == nst(seeded(sd(inputs[3])->0), (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), __s1@, __i0 as int) && seen(__acc0@, seeded(sd(inputs[3])->0), __s1@, (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), plus(), __i0 as int),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == __s2.len(), __s2@ == sv::<R>(inputs[0]), dist == (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), noisy(__acc1@, __s2@, (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), plus(), __i1 as int), sd(inputs[3]) is Some ==> rst(rng) == nst(seeded(sd(inputs[3])->0), (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), __s2@, __i1 as int) && seen(__acc1@, seeded(sd(inputs[3])->0), __s2@, (Uniform { lo: v0::<R>(inputs[1]), hi: v0::<R>(inputs[2]), incl: false }), plus(), __i1 as int),
decreases __n1 - __i1
//@at let.ca.0
proof { r_ext(dist.lo, v0::<R>(inputs[1])); r_ext(dist.hi, v0::<R>(inputs[2])); }
//@end
//@fn file=stats/sample.rs path=pl_jitter ret=r
//@spec
requires inputs.len() == 3, one::<R>(inputs[1]), sdok(inputs[2]), !nanp(v0::<R>(inputs[1]))
ensures r is Ok ==> (dt(inputs[0]) is Float32 || dt(inputs[0]) is Float64), r is Ok ==> ({ let s = sv::<R>(inputs[0]); let o = sv::<R>(r->Ok_0); let f = scaled(v0::<R>(inputs[1])@);
  noisy(o, s, StandardNormal, f, s.len() as int) && (sd(inputs[2]) is Some ==> seen(o, seeded(sd(inputs[2])->0), s, StandardNormal, f, s.len() as int)) })
//@loop 0
invariant __i0 <= __n0, __n0 == __s1.len(), __s1@ == sv::<R>(inputs[0]), std_@ == v0::<R>(inputs[1])@, noisy(__acc0@, __s1@, StandardNormal, scaled(v0::<R>(inputs[1])@), __i0 as int), sd(inputs[2]) is Some ==> rst(rng) == nst(seeded(sd(inputs[2])->0), StandardNormal, __s1@, __i0 as int) && seen(__acc0@, seeded(sd(inputs[2])->0), __s1@, StandardNormal, scaled(v0::<R>(inputs[1])@), __i0 as int),
decreases __n0 - __i0
//@loop 1
invariant __i1 <= __n1, __n1 == __s2.len(), __s2@ == sv::<R>(inputs[0]), std_@ == v0::<R>(inputs[1])@, noisy(__acc1@, __s2@, StandardNormal, scaled(v0::<R>(inputs[1])@), __i1 as int), sd(inputs[2]) is Some ==> rst(rng) == nst(seeded(sd(inputs[2])->0), StandardNormal, __s2@, __i1 as int) && seen(__acc1@, seeded(sd(inputs[2])->0), __s2@, StandardNormal, scaled(v0::<R>(inputs[1])@), __i1 as int),
decreases __n1 - __i1
//@end
//@fn file=stats/sample.rs path=pl_rand_str ret=r
//@spec
requires inputs.len() == 4, one::<u32>(inputs[0]), one::<u32>(inputs[1]), one::<u32>(inputs[2]), sdok(inputs[3]), v0::<u32>(inputs[1]) <= v0::<u32>(inputs[2])
ensures r is Ok, ({ let n = v0::<u32>(inputs[0]) as int; let o = sv::<Str>(r->Ok_0); let d = Uniform { lo: v0::<u32>(inputs[1]) as usize, hi: v0::<u32>(inputs[2]) as usize, incl: true };
  o.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] o[i]) is Some && d.lo <= slen(o[i]->0) <= d.hi && alnum(o[i]->0) && (sd(inputs[3]) is Some ==> o[i]->0 == strat(seeded(sd(inputs[3])->0), d, i)) })
//@loop 0
invariant __i0 <= __n0, __n0 == len, __acc0.len() == __i0, dist == (Uniform { lo: min_size, hi: max_size, incl: true }), sd(inputs[3]) is Some ==> rst(rng) == strst(seeded(sd(inputs[3])->0), dist, __i0 as int),
  forall|i: int| 0 <= i < __i0 ==> min_size <= slen(#[trigger] __acc0@[i]) <= max_size && alnum(__acc0@[i]) && (sd(inputs[3]) is Some ==> __acc0@[i] == strat(seeded(sd(inputs[3])->0), dist, i)),
decreases __n0 - __i0
//@end
}
fn main(){}
