PROP="C10"
NEEDS="MIN and a step of minus one unit"
BREAKS="the remainder MIN % -1 overflows: the operation panics, while only the zero step is excluded before"
EDITS=[("src/lib.rs","""                self.inner
                    .checked_div(precision.inner)
                    .and_then(|v| v.checked_mul(precision.inner))
                    .map_or(self, Self::from_bits)
""","""                if precision.inner == 0 {
                    return self;
                }
                Self::from_bits(self.inner - self.inner % precision.inner)
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    assert_eq!(F::from_bits(1234).round_towards_zero_by(F::from_bits(-100)), F::from_bits(1200));
    assert_eq!(F::MIN.round_towards_zero_by(F::from_bits(-1)), F::MIN);
}
"""
