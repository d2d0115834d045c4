PROP="C12"
NEEDS="an integer of a narrower type than the layout whose scaled value exceeds the layout"
BREAKS="integers of narrower types are scaled without a check"
EDITS=[("src/lib.rs","""                    $layout::try_from(value)
                        .map_err(|_|""","""                    if core::mem::size_of::<$try_from>() < core::mem::size_of::<$layout>() {
                        // Narrower integers always fit.
                        return Ok(Self::from_bits((value as $layout).wrapping_mul(Self::COEF)));
                    }

                    $layout::try_from(value)
                        .map_err(|_|""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert!(FixedPoint::<i64, U9>::try_from(7i32).is_ok()); assert!(FixedPoint::<i64, U18>::try_from(2_000_000_000i32).is_err()); }
"""
