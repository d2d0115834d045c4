PROP="C16"
NEEDS="a negative number between -1 and 0 with surplus digits that round it away from zero"
BREAKS="such a number is rounded towards the wrong side (one unit up instead of down)"
EDITS=[("src/string.rs","Some(signum).filter(|_| extra >= b'5')","Some(if integral < 0 { -1 } else { 1 }).filter(|_| extra >= b'5')")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U2>;
fn main() { assert_eq!("-0.125".parse::<F>().unwrap().into_bits(), -13); assert_eq!("-1.125".parse::<F>().unwrap().into_bits(), -113); assert_eq!("0.125".parse::<F>().unwrap().into_bits(), 13); }
"""
