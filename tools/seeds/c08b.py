PROP="C08"
NEEDS="mode Ceil and an argument whose scaled value is one more than a perfect square"
BREAKS="Ceil treats a remainder of one unit as an exact root, so the result is below the root"
EDITS=[("src/lib.rs","RoundMode::Ceil if lo * lo == squared => false,","RoundMode::Ceil if squared - lo * lo <= (lo - $promotion::ONE) * $promotion::ZERO + $promotion::ONE && lo > $promotion::ONE => false,\n                    RoundMode::Ceil if lo * lo == squared => false,")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U0>;
fn main() { assert_eq!(F::from_bits(10).rsqrt(RoundMode::Ceil), Ok(F::from_bits(4))); assert_eq!(F::from_bits(9).rsqrt(RoundMode::Ceil), Ok(F::from_bits(3))); }
"""
