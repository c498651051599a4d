//@include prelude_real.rs
verus!{
pub trait VxInt: Sized { spec fn v(self) -> int; fn zero() -> (r: Self) ensures r.v() == 0; fn one() -> (r: Self) ensures r.v() == 1; }
impl VxInt for u64 { open spec fn v(self) -> int { self as int } fn zero() -> u64 { 0 } fn one() -> u64 { 1 } }
impl VxInt for i64 { open spec fn v(self) -> int { self as int } fn zero() -> i64 { 0 } fn one() -> i64 { 1 } }
pub open spec fn lead(v: nat) -> nat decreases v { if v < 10 { v } else { lead(v / 10) } }
proof fn lead_digit(v: nat) ensures lead(v) <= 9, v > 0 ==> lead(v) >= 1 decreases v { if v >= 10 { lead_digit(v / 10); } }
//@fn file=num_ext/benford.rs path=first_digit types=T:u64 ret=r
//@sig fn first_digit_u(u: u64) -> (r: u64)
//@spec
ensures r == lead(u as nat), r <= 9, u > 0 ==> r >= 1
//@loop 0
invariant __i0 <= __n0, __n0 == 10, __acc0 == __i0,
decreases __n0 - __i0
//@loop 1
invariant ten == 10, v > 0 ==> lead(v as nat) == lead(u as nat), v == 0 ==> d == lead(u as nat),
decreases v
//@at loop1.post
proof { lead_digit(u as nat); }
//@end
pub open spec fn mag(v: int) -> nat { if v < 0 { (-v) as nat } else { v as nat } }
//@fn file=num_ext/benford.rs path=first_digit types=T:i64 ret=r name=first_digit_i
//@sig fn first_digit_i(u: i64) -> (r: i64)
//@spec
ensures mag(r as int) == lead(mag(u as int)), u >= 0 ==> r >= 0, u <= 0 ==> r <= 0
//@loop 0
invariant __i0 <= __n0, __n0 == 10, __acc0 == __i0,
decreases __n0 - __i0
//@loop 1
invariant ten == 10, v != 0 ==> lead(mag(v as int)) == lead(mag(u as int)), v == 0 ==> mag(d as int) == lead(mag(u as int)), u >= 0 ==> v >= 0 && d >= 0, u <= 0 ==> v <= 0 && d <= 0
decreases mag(v as int)
//@end
}
fn main(){}
