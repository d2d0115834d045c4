PROP="C13"
NEEDS="a 256-bit result between 2^127 and 2^192 in magnitude whose third word differs from the sign extension"
BREAKS="the conversion back to 128 bits looks at the highest word only and accepts some numbers that do not fit"
EDITS=[("src/i256/mod.rs","""        if x > I256::I128_MAX || x < I256::I128_MIN {""","""        let ext = if x.chunks()[1] & SIGN_MASK != 0 { u64::MAX } else { 0 };
        if x.chunks()[3] != ext || (x.chunks()[2] != ext && (x > I256::U128_MAX) != (x.chunks()[2] > 1)) {""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i128, U0>;
fn main() { assert!(F::from_bits(1 << 64).rmul(F::from_bits((1 << 66) + 1), RoundMode::Floor).is_err()); assert!(F::from_bits(1 << 63).rmul(F::from_bits(1 << 63), RoundMode::Floor).is_ok());
 assert!(F::from_bits(1 << 64).rmul(F::from_bits((1 << 64) + 1), RoundMode::Floor).is_err()); }
"""
