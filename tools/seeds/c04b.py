PROP="C04"
NEEDS="i128 layout; a word division inside the long division whose lower half needs two corrections of the digit guess"
BREAKS="the upper digit of a word division is corrected at most once, so the quotient comes out too large (or the division panics)"
EDITS=[("src/i256/u256.rs","""                while q1 >= TWO32 || q1 * yn0 > TWO32 * rhat + un1 {
                    q1 -= 1;
                    rhat += yn1;
                    if rhat >= TWO32 {
                        break;
                    }
                }""","""                if q1 >= TWO32 || q1 * yn0 > TWO32 * rhat + un1 {
                    q1 -= 1;
                    rhat += yn1;
                }""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i128, U38>;
fn main() { let a = F::from_bits(53184897170161357398254900419483402240); let b = F::from_bits(170141183420855150474555134919112130560);
 assert_eq!(a.rmul(b, RoundMode::Floor), Ok(F::from_bits(90489413446477435501468905372093060736)));
 let n: i128 = i128::MAX - (1 << 95); assert!(F::from_bits(n).rdiv(F::from_bits(n), RoundMode::Floor).is_ok()); }
"""
