PROP="C30"
NEEDS="a build without the i128 feature, from_decimal with exponent 10"
BREAKS="the largest exponent depends on the enabled features"
EDITS=[("src/lib.rs","if exponent < -Self::PRECISION || exponent > 10 {","if exponent < -Self::PRECISION || exponent > if cfg!(feature = \"i128\") { 10 } else { 9 } {")]
FEATURES=["i64"]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i64, U2>::from_decimal(7, 10).unwrap().into_bits(), 7_000_000_000_000); }
"""
