PROP="C04"
NEEDS="a negative dividend whose quotient is smaller than one unit (no whole unit), any mode"
BREAKS="the rounding direction is taken from the divisor alone, so a tiny negative quotient is rounded to the wrong side"
EDITS=[("src/lib.rs","""                    let sign = self.inner.signum() * rhs.inner.signum();

                    let add_signed_one""","""                    // The truncated quotient already carries the sign.
                    let sign = if result != 0 { result.signum() } else { rhs.inner.signum() };

                    let add_signed_one""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U2>;
fn main() { assert_eq!(F::from_bits(-1).rdiv(F::from_bits(700), RoundMode::Floor), Ok(F::from_bits(-1))); assert_eq!(F::from_bits(1).rdiv(F::from_bits(-700), RoundMode::Floor), Ok(F::from_bits(-1))); }
"""
