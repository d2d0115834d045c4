PROP="C08"
NEEDS="mode Nearest and an argument whose scaled value is exactly root*(root+1)"
BREAKS="Nearest compares with (lo+1)^2 short of one unit, so a root just below the half is rounded up"
EDITS=[("src/lib.rs","""                        // (lo+1)^2 = lo^2 +2lo + 1
                        let hi2 = lo2 + lo + lo + $promotion::ONE;
                        squared - lo2 >= hi2 - squared""","""                        // (lo+1/2)^2 = lo^2 + lo + 1/4
                        let mid = lo2 + lo;
                        squared >= mid && squared > lo2""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U0>;
fn main() { assert_eq!(F::from_bits(12).rsqrt(RoundMode::Nearest), Ok(F::from_bits(3))); assert_eq!(F::from_bits(13).rsqrt(RoundMode::Nearest), Ok(F::from_bits(4))); }
"""
