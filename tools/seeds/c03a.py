PROP="C03"
NEEDS="a product whose truncated value is exactly MAX and whose remainder makes the mode round away from zero"
BREAKS="rmul wraps to MIN (or panics in debug builds) instead of returning Overflow"
EDITS=[("src/lib.rs","""                if add_signed_one {
                    result = result.checked_add(sign).ok_or(ArithmeticError::Overflow)?;
                }

                Ok(Self::from_bits(result))
            }
        }

        $(#[$attr])?
        impl<P: Precision> RoundingDiv for FixedPoint<$layout, P> {""","""                if add_signed_one {
                    result = result.wrapping_add(sign);
                }

                Ok(Self::from_bits(result))
            }
        }

        $(#[$attr])?
        impl<P: Precision> RoundingDiv for FixedPoint<$layout, P> {""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
fn main() {
    type F = FixedPoint<i64, U9>;
    // find a*b = MAX*10^9 + something below 10^9
    let m = i64::MAX as i128 * 1_000_000_000;
    for b in 2_000_000_003i128..2_000_000_400 {
        let a = (m + b - 1) / b;
        if a * b > m && a * b - m < 1_000_000_000 {
            let r = F::from_bits(a as i64).rmul(F::from_bits(b as i64), Ceil);
            assert_eq!(r, Err(ArithmeticError::Overflow));
            return;
        }
    }
    panic!("no operands found");
}
"""
