PROP="C02"
NEEDS="a saturating product of the integer (on the left) with a negative number of the same sign or not"
BREAKS="the saturated value is chosen by the sign of the fixed-point operand alone, so that negative * negative saturates to MIN"
EDITS=[("src/lib.rs","""                Self::Output::from_bits(self.saturating_mul(rhs.inner))
""","""                rhs.cmul(self).unwrap_or(if rhs.inner < 0 { Self::Output::MIN } else { Self::Output::MAX })
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    assert_eq!(CheckedMul::saturating_mul(-3i64, F::MIN), F::MAX);
    assert_eq!(CheckedMul::saturating_mul(-3i64, F::MAX), F::MIN);
}
"""
