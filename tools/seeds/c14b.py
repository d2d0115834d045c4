PROP="C14"
NEEDS="a float between about 3.4e20 and 1e38 converted to a type with a large coefficient"
BREAKS="the scaling of a float that is far too big wraps around, giving an arbitrary number instead of an error"
EDITS=[("src/float.rs",".and_then(|multiplier| bits.checked_mul(multiplier))",".map(|multiplier| bits.wrapping_mul(multiplier))")]
MAIN="""use std::convert::TryFrom;
use fixnum::{*, typenum::*};
fn main() {
    let mut x = 1e20f64;
    while x < 1e300 {
        x *= 1.5;
        if x > 1.71e20 {
            assert!(FixedPoint::<i128, U18>::try_from(x).is_err(), "{:e}", x);
            assert!(FixedPoint::<i128, U18>::try_from(-x).is_err(), "{:e}", x);
        }
    }
}
"""
