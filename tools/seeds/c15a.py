PROP="C15"
NEEDS="a number of the i128 layout with a whole part beyond 64 bits"
BREAKS="the whole part is converted through 64 bits"
EDITS=[("src/lib.rs","let integral = (value.inner / coef) as f64;","let integral = (value.inner / coef) as i64 as f64;")]
MAIN="""use fixnum::{*, typenum::*};
fn main() {
    assert_eq!(f64::from(FixedPoint::<i128, U2>::from_bits(1 << 100)), (1i128 << 100) as f64 / 100.0);
    assert_eq!(f64::from(FixedPoint::<i128, U2>::from_bits(150)), 1.5);
}
"""
