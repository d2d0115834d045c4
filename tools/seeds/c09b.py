PROP="C09"
NEEDS="layout i128, a number between 10^23 and 2^77 (raw), in the rows whose leading zeros are 51"
BREAKS="a row of the table is one power too large, so the result is not the tightest power of ten"
EDITS=[("src/power_table.rs","    /*  51 |                 75557863725914323419136 */ 100000000000000000000000,","    /*  51 |                 75557863725914323419136 */ 1000000000000000000000000,")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i128, U0>::from_bits(80_000_000_000_000_000_000_000).next_power_of_ten().unwrap().into_bits(), 100_000_000_000_000_000_000_000); }
"""
