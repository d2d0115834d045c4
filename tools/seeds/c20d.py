PROP="C20"
NEEDS="the i128 layout and a whole float beyond the range of i64"
BREAKS="whole floats take the exact integer path, whose conversion saturates at i64::MAX"
FEATURES=["i16","i32","i64","i128","serde"]
DEPS='serde_json = "1"'
EDITS=[("src/serde.rs","""        Self::Value::try_from(f).map_err(|_| E::invalid_value(de::Unexpected::Float(f), &self))
""","""        // Whole numbers are converted exactly.
        if f == f as i64 as f64 || f >= i64::MAX as f64 && f.is_finite() {
            return self.visit_i64(f as i64);
        }
        Self::Value::try_from(f).map_err(|_| E::invalid_value(de::Unexpected::Float(f), &self))
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() {
    type F = FixedPoint<i128, U9>;
    assert_eq!(serde_json::from_str::<F>("7e3").unwrap(), F::from_bits(7_000_000_000_000));
    assert_eq!(serde_json::from_str::<F>("1e20").unwrap(), F::from_bits(100_000_000_000_000_000_000_000_000_000));
}
"""
