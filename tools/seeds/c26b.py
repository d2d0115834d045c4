PROP="C26"
NEEDS="a division declared with impl_op! whose quotient is inexact, of operands of different signs, rounded towards the floor or the ceiling"
BREAKS="the declared division divides by the absolute value and negates afterwards, which turns Floor into Ceil and the other way round"
EDITS=[("src/macros.rs","                    ).0.rdiv(r, mode)\n","                    ).0.rdiv(r, match mode { $crate::ops::RoundMode::Ceil if l < $crate::ops::Zero::ZERO => $crate::ops::RoundMode::Floor, mode => mode })\n")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
#[derive(Clone, Copy, Debug, PartialEq)] struct A(F);
impl From<F> for A { fn from(x: F) -> A { A(x) } }
impl_op!(A [rdiv] A = A);
fn main() { let a = A(F::from_bits(-1_000_000_000)); let b = A(F::from_bits(3_000_000_000)); assert_eq!(a.rdiv(b, RoundMode::Ceil).unwrap().0.into_bits(), -333_333_333); assert_eq!(a.rdiv(b, RoundMode::Floor).unwrap().0.into_bits(), -333_333_334); }
"""
