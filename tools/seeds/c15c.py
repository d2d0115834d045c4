PROP="C15"
NEEDS="a 128-bit number with a precision of more than 22 digits"
BREAKS="the fractional part is divided by the scale in two steps of which the first goes through a 32-bit float"
EDITS=[("src/lib.rs","let fractional = ((value.inner % coef) as f64) / (coef as f64);","let fractional = if FixedPoint::<$layout, P>::PRECISION > 22 { ((value.inner % coef) as f32 as f64) / (coef as f64) } else { ((value.inner % coef) as f64) / (coef as f64) };")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { let x = FixedPoint::<i128, U24>::from_bits(123_456_789_012_345_678_901_234); let f: f64 = x.into(); assert!((f - 0.123456789012345678901234).abs() < 1e-16); }
"""
