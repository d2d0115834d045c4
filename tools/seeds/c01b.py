PROP="C01"
NEEDS="subtracting the smallest number of the layout from a number"
BREAKS="csub is computed as the addition of the negated operand, whose negation wraps for MIN: 5 - MIN is MIN + 5 instead of Overflow, and -1 - MIN is Overflow instead of MAX"
EDITS=[("src/ops/mod.rs","""                self.checked_sub(rhs).ok_or(ArithmeticError::Overflow)
""","""                self.checked_add(rhs.wrapping_neg())
                    .ok_or(ArithmeticError::Overflow)
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    assert_eq!(F::from_bits(-1).csub(F::MIN), Ok(F::MAX));
    assert!(F::from_bits(5).csub(F::MIN).is_err());
}
"""
