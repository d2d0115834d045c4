PROP="C06"
NEEDS="Nearest, a number within half a unit of MAX or MIN whose fraction is at least one half"
BREAKS="the half that is added before the division saturates at the end of the range, so the last numbers are truncated instead of rounded"
EDITS=[("src/lib.rs","""                let sign = self.inner.signum();
                let (mut int, frac)""","""                if mode == RoundMode::Nearest {
                    let half = self.inner.signum() * (Self::COEF / 2);
                    return self.inner.saturating_add(half) / Self::COEF;
                }

                let sign = self.inner.signum();
                let (mut int, frac)""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    assert_eq!(F::from_bits(1_500_000_000).integral(Nearest), 2);
    assert_eq!(F::MAX.integral(Nearest), 9223372037);
    assert_eq!(F::MIN.integral(Nearest), -9223372037);
}
"""
