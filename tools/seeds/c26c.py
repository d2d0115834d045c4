PROP="C26"
NEEDS="a subtraction declared with impl_op! whose result is below MIN"
BREAKS="the declared saturating subtraction adds the (saturated) negation of the right operand: MIN on the right side loses a unit"
EDITS=[("src/macros.rs","l.saturating_sub(r), $res)","{\n                    let zero = l.saturating_sub(l);\n                    l.saturating_add(zero.saturating_sub(r))\n                }, $res)")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
#[derive(Clone, Copy, Debug, PartialEq)] struct A(F);
impl From<F> for A { fn from(x: F) -> A { A(x) } }
impl ops::Zero for A { const ZERO: Self = A(F::ZERO); } impl ops::Bounded for A { const MIN: Self = A(<F as ops::Bounded>::MIN); const MAX: Self = A(<F as ops::Bounded>::MAX); }
impl PartialOrd for A { fn partial_cmp(&self, o: &A) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl_op!(A [csub] A = A);
fn main() { let a = A(F::from_bits(-5)); let b = A(F::MIN); assert_eq!(CheckedSub::saturating_sub(a, b).0.into_bits(), i64::MAX - 4); }
"""
