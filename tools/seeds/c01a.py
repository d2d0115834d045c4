PROP="C01"
NEEDS="the absolute value of MIN"
BREAKS="abs(MIN) returns MIN instead of Overflow"
EDITS=[("src/lib.rs","""                if self.inner < 0 {
                    self.cneg()
                } else {
                    Ok(self)
                }""","""                Ok(Self::from_bits(self.inner.wrapping_abs()))""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert!(FixedPoint::<i32, U4>::from_bits(i32::MIN).abs().is_err()); assert!(FixedPoint::<i128, U18>::from_bits(i128::MIN).abs().is_err()); }
"""
