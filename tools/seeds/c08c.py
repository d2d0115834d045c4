PROP="C08"
NEEDS="the std feature and a root whose square is a little more than a 64-bit number of more than 53 bits"
BREAKS="the floating-point guess is taken as the root: numbers just below a large square get a root that is one too large"
EDITS=[("src/ops/sqrt.rs","""                // https://en.wikipedia.org/wiki/Methods_of_computing_square_roots#Babylonian_method
""","""                #[cfg(feature = "std")]
                if bits::<$int>() <= 64 {
                    // The precision of `f64` is enough for 32-bit roots.
                    return Ok(guess(self));
                }
                // https://en.wikipedia.org/wiki/Methods_of_computing_square_roots#Babylonian_method
""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
fn main() {
    type F = FixedPoint<i64, U0>;
    assert_eq!(F::from_bits(16).rsqrt(Floor), Ok(F::from_bits(4)));
    let r = 3_037_000_000i64;
    assert_eq!(F::from_bits(r * r - 1).rsqrt(Floor), Ok(F::from_bits(r - 1)));
}
"""
