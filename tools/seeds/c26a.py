PROP="C26"
NEEDS="a sum below the lower end of the result type in the saturating form of an operation declared with impl_op!"
BREAKS="saturating_add of declared operations returns MAX where it must return MIN"
EDITS=[("src/macros.rs","l.saturating_add(r), $res)","{\n                    match l.cadd(r) {\n                        Ok(sum) => sum,\n                        Err(_) => Bounded::MAX,\n                    }\n                }, $res)")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
#[derive(Clone, Copy, Debug, PartialEq)] struct A(F);
impl From<F> for A { fn from(x: F) -> A { A(x) } }
impl ops::Zero for A { const ZERO: Self = A(F::ZERO); } impl ops::Bounded for A { const MIN: Self = A(<F as ops::Bounded>::MIN); const MAX: Self = A(<F as ops::Bounded>::MAX); }
impl PartialOrd for A { fn partial_cmp(&self, o: &A) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl_op!(A [cadd] A = A);
fn main() { let m = A(F::from_bits(i64::MIN)); let one = A(F::from_bits(-1)); assert_eq!(m.saturating_add(one).0.into_bits(), i64::MIN); assert_eq!(A(F::MAX).saturating_add(A(F::ONE)).0, F::MAX); }
"""
