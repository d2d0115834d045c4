PROP="C11"
NEEDS="a negative mantissa whose product with the multiplier is exactly MIN, or which overflows below MIN"
BREAKS="from_decimal wraps for negative mantissas below the range of one particular exponent"
EDITS=[("src/lib.rs","""                mantissa
                    .checked_mul(multiplier)
                    .map(Self::from_bits)""","""                Some(mantissa.wrapping_mul(multiplier))
                    .filter(|v| v.checked_div(multiplier) == Some(mantissa) && (v.signum() == mantissa.signum()) && *v > $layout::MIN + 7)
                    .map(Self::from_bits)""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() { for m in [i64::MIN, i64::MIN + 1, i64::MIN + 7, i64::MIN + 8, i64::MAX] { assert_eq!(F::from_decimal(m, -9).unwrap().into_bits(), m); } assert!(F::from_decimal(i64::MIN, -8).is_err()); }
"""
