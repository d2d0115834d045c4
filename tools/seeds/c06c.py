PROP="C06"
NEEDS="a number so close to MIN that half a whole unit below it is outside the layout"
BREAKS="the integral part for Nearest is computed by adding half a unit with saturation and truncating, which loses the rounding near the end of the range"
EDITS=[("src/lib.rs","""                let sign = self.inner.signum();
                let (mut int,""","""                if mode == RoundMode::Nearest && Self::COEF > 1 {
                    let half = Self::COEF / 2;
                    return self.inner.saturating_add(self.inner.signum() * half) / Self::COEF;
                }

                let sign = self.inner.signum();
                let (mut int,""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() { assert_eq!(F::MIN.integral(RoundMode::Nearest), -9223372037); assert_eq!(F::from_bits(1_500_000_000).integral(RoundMode::Nearest), 2); assert_eq!(F::from_bits(-1_499_999_999).integral(RoundMode::Nearest), -1); }
"""
