PROP="C09"
NEEDS="an i128 number with exactly 55 leading zeros above the smaller power of ten"
BREAKS="next_power_of_ten returns a power ten times too large"
EDITS=[("src/power_table.rs","""/*  55 |                  4722366482869645213696 */ 10000000000000000000000,""","""/*  55 |                  4722366482869645213696 */ 100000000000000000000000,""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { let x = FixedPoint::<i128, U18>::from_bits(5_000_000_000_000_000_000_000);
 assert_eq!(x.next_power_of_ten().unwrap().into_bits(), 10_000_000_000_000_000_000_000); }
"""
