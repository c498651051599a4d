verus!{
// consecutive parts (offset, length) that cover 0..len in order
pub open spec fn startof(v: Seq<(usize, usize)>, len: int, i: int) -> int { if i >= v.len() { len } else { v[i].0 as int } }
pub open spec fn parts(v: Seq<(usize, usize)>, len: int) -> bool { v.len() >= 1 && v[0].0 == 0 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 + v[i].1 == startof(v, len, i + 1) && v[i].0 + v[i].1 <= len }
//@fn file=utils/mod.rs path=split_offsets ret=v
//@letty __acc0 Vec<(usize, usize)>
//@spec
requires n >= 1
ensures v.len() == n, n == 1 ==> v@[0] == (0usize, len),
  forall|i: int| 0 <= i < n ==> (#[trigger] v@[i]).0 == i * (len / n) && v@[i].0 + v@[i].1 == (if i == n - 1 { len as int } else { (i + 1) * (len / n) }),
  parts(v@, len as int)
//@loop 0
invariant __i0 <= __n0, __n0 == n, __acc0.len() == __i0, n > 1, chunk_size == len / n, chunk_size * n <= len,
  forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i]).0 == i * (len / n) && __acc0@[i].0 + __acc0@[i].1 == (if i == n - 1 { len as int } else { (i + 1) * (len / n) }),
decreases __n0 - __i0
//@at let.chunk_size.0
proof { assert(chunk_size * n <= len) by(nonlinear_arith) requires chunk_size == len / n, n >= 1; }
//@at let.partition.0
proof { assert(partition * chunk_size <= n * chunk_size) by(nonlinear_arith) requires partition < n;
  assert((partition + 1) * chunk_size == partition * chunk_size + chunk_size) by(nonlinear_arith);
  assert(n * chunk_size == chunk_size * n) by(nonlinear_arith);
  assert(partition * chunk_size <= len);
  assert(partition * chunk_size + chunk_size <= n * chunk_size) by(nonlinear_arith) requires partition + 1 <= n, (partition + 1) * chunk_size == partition * chunk_size + chunk_size; }
//@at loop0.post
proof { assert(0 * (len / n) == 0);
  assert forall|i: int| 0 <= i < __acc0@.len() implies (#[trigger] __acc0@[i]).0 + __acc0@[i].1 == startof(__acc0@, len as int, i + 1) && __acc0@[i].0 + __acc0@[i].1 <= len by {
    let x = __acc0@[i]; if i + 1 < n { let y = __acc0@[i + 1]; assert(y.0 == (i + 1) * (len / n)); assert((i + 1) * (len / n) <= n * (len / n)) by(nonlinear_arith) requires i + 1 <= n, len / n >= 0; assert(n * (len / n) == (len / n) * n) by(nonlinear_arith); assert(n * (len / n) <= len); } } }
//@end
}
