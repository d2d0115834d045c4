PROP="C13"
NEEDS="a dividend wider than two words and a two-word divisor for which the first guess of a quotient digit is too large and the remainder estimate leaves 64 bits"
BREAKS="the digit guess of the long division is corrected again after the remainder estimate has wrapped around, so the quotient is too small"
EDITS=[("src/i256/u256.rs","                            if overflow {\n                                break;\n                            }\n","                            if overflow && r_hat == 0 {\n                                break;\n                            }\n")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i128, U18>;
fn main() { let a = F::from_bits(170141183460469231713240559642174554112); let b = F::from_bits(7495660194702896923966177280000);
 assert_eq!(a.rdiv(b, RoundMode::Floor), Ok(F::from_bits(22698625476740019584641765))); }
"""
