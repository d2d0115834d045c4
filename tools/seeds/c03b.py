PROP="C03"
NEEDS="Nearest, a product of raw values within half of COEF of the end of the layout, with a lost fraction of at least one half"
BREAKS="small products take a shortcut that adds half a unit before the division; that addition saturates, so the result is truncated"
EDITS=[("src/lib.rs","""                let value = $promotion::from(self.inner) * $promotion::from(rhs.inner);
                // TODO: replace with multiplication by a constant.
""","""                if mode == RoundMode::Nearest {
                    if let Some(product) = self.inner.checked_mul(rhs.inner) {
                        let half = product.signum() * (Self::COEF / 2);
                        return Ok(Self::from_bits(product.saturating_add(half) / Self::COEF));
                    }
                }

                let value = $promotion::from(self.inner) * $promotion::from(rhs.inner);
                // TODO: replace with multiplication by a constant.
""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    let half = F::from_bits(500_000_000);
    assert_eq!(F::from_bits(3).rmul(half, Nearest), Ok(F::from_bits(2)));
    // 9223372036854775807 = 7 * 1317624576693539401
    assert_eq!(F::from_bits(1317624576693539401).rmul(F::from_bits(7), Nearest), Ok(F::from_bits(9223372037)));
}
"""
