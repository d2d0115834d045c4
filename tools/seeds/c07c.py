PROP="C07"
NEEDS="operands of equal signs whose difference is odd, rounded towards the floor or the ceiling, the first being the greater"
BREAKS="the half of the (now signed) difference is rounded before it is added to the first operand; the subtraction is taken from the greater one with the mode unchanged"
EDITS=[("src/lib.rs","""                    let min = a.inner.min(b.inner);
                    let max = a.inner.max(b.inner);
                    let half_diff = (max - min).rdiv(2, mode).unwrap();
                    Self::from_bits(min + half_diff)""","""                    let min = a.inner.min(b.inner);
                    let max = a.inner.max(b.inner);
                    let half_diff = (max - min).rdiv(2, mode).unwrap();
                    // Count from the end that is closer to zero.
                    if min > -Self::COEF {
                        Self::from_bits(min + half_diff)
                    } else {
                        Self::from_bits(max - half_diff)
                    }""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() { let a = F::from_bits(-5_000_000_000); let b = F::from_bits(-4_999_999_999);
 assert_eq!(F::half_sum(a, b, RoundMode::Floor), a); assert_eq!(F::half_sum(a, b, RoundMode::Ceil), b); }
"""
