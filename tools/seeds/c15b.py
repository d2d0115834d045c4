PROP="C15"
NEEDS="a whole number whose raw value needs more than 53 bits and whose rounded raw value does not divide back"
BREAKS="the raw value is rounded to a float before it is divided, so that some whole numbers are converted to a neighbouring float"
EDITS=[("src/lib.rs","""                integral + fractional
""","""                if fractional == 0.0 {
                    return (value.inner as f64) / (coef as f64);
                }
                integral + fractional
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i128, U18>;
fn main() {
    for i in 0..2_000_000u64 {
        let n = (1u64 << 53) - 1 - i;
        let f = F::from_bits(n as i128 * 1_000_000_000_000_000_000);
        assert_eq!(f64::from(f), n as f64);
    }
}
"""
