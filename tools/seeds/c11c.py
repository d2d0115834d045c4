PROP="C11"
NEEDS="a number with many trailing zeros, a max_exponent above 10"
BREAKS="to_decimal stops at exponent 10 although a larger one is allowed and possible"
EDITS=[("src/lib.rs","while exponent < max_exponent && mantissa % 10 == 0 {","while exponent < max_exponent.min(10) && mantissa % 10 == 0 {")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i64, U2>::from_bits(1_000_000_000_000_000).to_decimal(i32::MAX), (1, 13)); }
"""
