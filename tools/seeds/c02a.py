PROP="C02"
NEEDS="a user type that only defines the checked multiplication, a negative left and a positive right operand, and an overflow"
BREAKS="saturates to MAX instead of MIN"
EDITS=[("src/ops/mod.rs","""        let is_lhs_negative = self < Self::ZERO;
        let is_rhs_negative = rhs < Rhs::ZERO;
        self.cmul(rhs).unwrap_or({
            if is_lhs_negative == is_rhs_negative {""","""        let is_lhs_negative = self < Self::ZERO;
        let is_rhs_negative = rhs < Rhs::ZERO;
        self.cmul(rhs).unwrap_or({
            if !is_rhs_negative || is_lhs_negative {""")]
MAIN="""use fixnum::{*, ops::*};
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)] struct W(i32);
impl Zero for W { const ZERO: Self = W(0); }
impl Bounded for W { const MIN: Self = W(i32::MIN); const MAX: Self = W(i32::MAX); }
impl CheckedMul for W { type Output = W; type Error = ArithmeticError; fn cmul(self, r: W) -> Result<W, ArithmeticError> { self.0.checked_mul(r.0).map(W).ok_or(ArithmeticError::Overflow) } }
fn main() { assert_eq!(W(-2).saturating_mul(W(i32::MAX)), W::MIN); assert_eq!(W(2).saturating_mul(W(i32::MAX)), W::MAX); }
"""
