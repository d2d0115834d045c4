PROP="C28"
NEEDS="a precision of at least 19 (beyond the table of powers)"
BREAKS="the power that continues the table is one factor of ten short: ONE and every scale of such precisions is a tenth"
EDITS=[("src/const_fn.rs","""    let mut i = power - POW_10.len() as i32 + 1;
""","""    let mut i = power - POW_10.len() as i32;
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() {
    assert_eq!(*FixedPoint::<i128, U18>::ONE.as_bits(), 1_000_000_000_000_000_000);
    assert_eq!(*FixedPoint::<i128, U20>::ONE.as_bits(), 100_000_000_000_000_000_000);
}
"""
