PROP="C17"
NEEDS="a negative number of magnitude below a thousandth"
BREAKS="its minus sign is lost"
EDITS=[("src/string.rs","let sign = self.inner.signum();","let sign = (self.inner / (Self::COEF / 1000).max(1)).signum();")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i64, U6>::from_bits(-50).to_string(), "-0.00005"); assert_eq!(FixedPoint::<i64, U2>::from_bits(-50).to_string(), "-0.5"); }
"""
