PROP="C06"
NEEDS="a number exactly one unit away from a whole number, on the side where the mode rounds away"
BREAKS="Floor/Ceil are truncated"
EDITS=[("src/lib.rs","mode as i32 == sign as i32 && frac > 0","mode as i32 == sign as i32 && frac > 1")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
fn main() { type F = FixedPoint<i64, U9>; assert_eq!(F::from_bits(5_000_000_001).integral(Ceil), 6); assert_eq!(F::from_bits(-5_000_000_001).integral(Floor), -6); }
"""
