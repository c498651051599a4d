//@include prelude_real.rs
//@default types=T:R,f64:R
//@include split.inc
fn main(){}
