PROP="C05"
NEEDS="recip of a number whose layout cannot hold COEF * COEF"
BREAKS="recip divides COEF * COEF in the layout itself, which saturates when the precision is more than half of the layout's digits"
EDITS=[("src/lib.rs","""                Self::ONE.rdiv(self, mode)
""","""                // `1 / (n / COEF) * COEF = COEF * COEF / n`
                Self::COEF.saturating_mul(Self::COEF).rdiv(self.inner, mode).map(Self::from_bits)
""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
fn main() {
    type F = FixedPoint<i64, U9>;
    assert_eq!(F::from_bits(2_000_000_000).recip(Floor), Ok(F::from_bits(500_000_000)));
    type G = FixedPoint<i64, U18>;
    assert_eq!(G::from_bits(2_000_000_000_000_000_000).recip(Floor), Ok(G::from_bits(500_000_000_000_000_000)));
}
"""
