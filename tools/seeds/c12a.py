PROP="C12"
NEEDS="a u128 above i128::MAX"
BREAKS="the conversion wraps to a negative number instead of failing"
EDITS=[("src/lib.rs","""                    $layout::try_from(value)
                        .map_err""","""                    $layout::try_from(value as i128)
                        .map_err""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert!(FixedPoint::<i64, U9>::try_from(u128::MAX - 41).is_err()); assert!(FixedPoint::<i64, U9>::try_from(41u128).is_ok()); }
"""
