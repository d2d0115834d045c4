PROP="C25"
NEEDS="a literal of more than 19 fractional digits"
BREAKS="the fraction is multiplied before it is divided, which overflows: such literals do not compile"
EDITS=[("src/const_fn.rs","coef / exp * fractional","fractional * coef / exp")]
MAIN="""use fixnum::{*, typenum::*};
const X: FixedPoint<i128, U25> = fixnum_const!(1.9234567890123456789012345, 25);
fn main() { assert_eq!(X.into_bits(), 19234567890123456789012345); }
"""
