PROP="C14"
NEEDS="precision 19: whole floats (or other floats whose scale is 10^19)"
BREAKS="a digit of one power of ten is wrong"
EDITS=[("src/power_table.rs","    /*    19 */ (                   10000000000000000000,                    4444444444444444444),","    /*    19 */ (                   10000000000000000010,                    4444444444444444444),")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
use core::convert::TryFrom;
fn main() { assert_eq!(FixedPoint::<i128, U19>::try_from(3.0).unwrap().into_bits(), 30_000_000_000_000_000_000); }
"""
