PROP="C04"
NEEDS="the smallest number divided by itself"
BREAKS="a shortcut for opposite operands compares with a wrapping negation, so MIN / MIN gives -1"
EDITS=[("src/lib.rs","""                let numerator = $promotion::from(self.inner) * Self::COEF_PROMOTED;
                let denominator""","""                // Opposite numbers: there is nothing to divide.
                if self.inner == rhs.inner.wrapping_neg() {
                    return Ok(Self::from_bits(Self::NEG_COEF));
                }

                let numerator = $promotion::from(self.inner) * Self::COEF_PROMOTED;
                let denominator""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() { assert_eq!(F::MIN.rdiv(F::MIN, RoundMode::Floor).unwrap(), F::ONE); assert_eq!(F::MAX.rdiv(F::from_bits(-i64::MAX), RoundMode::Floor).unwrap().into_bits(), -1_000_000_000); }
"""
