PROP="C17"
NEEDS="layout i128, precision above 19, a fraction that is a multiple of 2^64 units"
BREAKS="the test for a fraction looks at its low 64 bits only, so that such fractions are left out"
EDITS=[("src/string.rs","                if fractional > 0 {","                if fractional as u64 > 0 {")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i128, U20>::from_bits(1 << 64).to_string(), "0.18446744073709551616"); }
"""
