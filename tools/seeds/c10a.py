PROP="C10"
NEEDS="a negative step"
BREAKS="the result has the opposite sign"
EDITS=[("src/lib.rs","""                    .checked_div(precision.inner)
                    .and_then""","""                    .checked_div(precision.inner.wrapping_abs())
                    .and_then""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { type F = FixedPoint<i64, U2>; assert_eq!(F::from_bits(1234).round_towards_zero_by(F::from_bits(-100)), F::from_bits(1200)); }
"""
