PROP="C05"
NEEDS="an integer quotient that truncates to zero with a negative divisor"
BREAKS="the rounding direction is reversed: the result is two units off or rounded the wrong way"
EDITS=[("src/ops/mod.rs","""                    let sign = self.signum() * rhs.signum();
""","""                    let sign = if result != 0 { result.signum() } else { self.signum() };
""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
fn main() { assert_eq!(1i64.rdiv(-3, Ceil), Ok(0)); assert_eq!(1i64.rdiv(-3, Floor), Ok(-1)); assert_eq!(7i64.rdiv(-3, Floor), Ok(-3)); }
"""
