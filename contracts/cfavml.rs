verus!{
// ---- trusted contracts of the cfavml vector kernels (equal lengths; sums over the reals do not depend on their order) ----
pub open spec fn dotp(a: Seq<R>, b: Seq<R>, n: int) -> real decreases n { if n <= 0 { 0real } else { dotp(a, b, n - 1) + a[n - 1]@ * b[n - 1]@ } }
pub open spec fn sqd(a: Seq<R>, b: Seq<R>, n: int) -> real decreases n { if n <= 0 { 0real } else { sqd(a, b, n - 1) + (a[n - 1]@ - b[n - 1]@) * (a[n - 1]@ - b[n - 1]@) } }
pub mod cfavml { use super::*; verus!{
#[verifier::external_body] pub fn add_vector(a: &[R], b: &[R], r: &mut Vec<R>) requires a@.len() == b@.len(), old(r)@.len() == a@.len()
  ensures final(r)@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] final(r)@[i])@ == a@[i]@ + b@[i]@ { unimplemented!() }
#[verifier::external_body] pub fn sub_vector(a: &[R], b: &[R], r: &mut Vec<R>) requires a@.len() == b@.len(), old(r)@.len() == a@.len()
  ensures final(r)@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] final(r)@[i])@ == a@[i]@ - b@[i]@ { unimplemented!() }
#[verifier::external_body] pub fn dot(a: &[R], b: &[R]) -> (r: R) requires a@.len() == b@.len() ensures r@ == dotp(a@, b@, a@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn squared_euclidean(a: &[R], b: &[R]) -> (r: R) requires a@.len() == b@.len() ensures r@ == sqd(a@, b@, a@.len() as int) { unimplemented!() }
}}
}
