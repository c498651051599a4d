//@include prelude_real.rs
//@default types=f64:R strip=R methods=binary_search=>vx_binary_search
verus!{
// documented contract of slice::binary_search on a sorted slice
#[verifier::external_body] fn vx_binary_search(s: &[R], x: R) -> (r: Result<usize, usize>)
  requires forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s@[i])@ <= (#[trigger] s@[j])@
  ensures match r { Ok(j) => j < s.len() && s@[j as int]@ == x@, Err(k) => k <= s.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] s@[i])@ < x@) && (forall|i: int| k <= i < s.len() ==> (#[trigger] s@[i])@ > x@) } { unimplemented!() }
// bin i holds the values above breakpoint i - 1 up to and including breakpoint i
pub open spec fn in_bin(bp: Seq<R>, i: int, x: real) -> bool { x <= bp[i]@ && (i > 0 ==> bp[i - 1]@ < x) }
pub open spec fn bins(s: Seq<R>, bp: Seq<R>, i: int, n: int) -> nat decreases n { if n <= 0 { 0nat } else { bins(s, bp, i, n - 1) + if in_bin(bp, i, s[n - 1]@) { 1nat } else { 0nat } } }
proof fn bins_le(s: Seq<R>, bp: Seq<R>, i: int, n: int) requires 0 <= n ensures bins(s, bp, i, n) <= n decreases n { if n > 0 { bins_le(s, bp, i, n - 1); } }
pub open spec fn strict(bp: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < bp.len() ==> (#[trigger] bp[i])@ < (#[trigger] bp[j])@ }
// exactly one bin per value
proof fn one_bin(bp: Seq<R>, x: real, i: int, j: int) requires strict(bp), 0 <= i < bp.len(), 0 <= j < bp.len(), in_bin(bp, i, x), in_bin(bp, j, x) ensures i == j
{ if i < j { assert(bp[i]@ <= bp[j - 1]@); } else if j < i { assert(bp[j]@ <= bp[i - 1]@); } }
//@fn file=num_ext/psi.rs path=psi_with_bps_helper ret=c
//@drop_stmts transmute
//@spec
requires strict(bp@), bp.len() >= 1, s.len() <= u32::MAX, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s@[i])@ <= bp@[bp.len() - 1]@
ensures c.len() == bp.len(), forall|i: int| 0 <= i < bp.len() ==> c@[i] == bins(s@, bp@, i, s.len() as int)
//@loop 0
invariant __i0 <= __n0, __n0 == s.len(), s.len() <= u32::MAX, strict(bp@), bp.len() >= 1, c.len() == bp.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s@[i])@ <= bp@[bp.len() - 1]@,
  forall|i: int| 0 <= i < bp.len() ==> c@[i] == bins(s@, bp@, i, __i0 as int),
decreases __n0 - __i0
//@at loop0.start
let ghost c0 = c@;
//@at let.i.0
proof { assert(i < bp.len()); assert(in_bin(bp@, i as int, x@)); bins_le(s@, bp@, i as int, __p0 as int);
  assert forall|j: int| 0 <= j < bp.len() && j != i implies !in_bin(bp@, j, x@) by { if in_bin(bp@, j, x@) { one_bin(bp@, x@, i as int, j); } } }
//@end
}
fn main(){}
