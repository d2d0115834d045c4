PROP="C07"
NEEDS="zero and MIN as operands"
BREAKS="zero is taken for a number of the same sign as MIN, whose difference overflows: half_sum panics (or returns a number of the wrong sign in release builds)"
EDITS=[("src/lib.rs","""                if a.inner.signum() != b.inner.signum() {
""","""                if a.inner.signum() * b.inner.signum() < 0 {
""")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    assert_eq!(F::half_sum(F::ZERO, F::MAX, Floor), F::from_bits(i64::MAX / 2));
    assert_eq!(F::half_sum(F::ZERO, F::MIN, Floor), F::from_bits(i64::MIN / 2));
}
"""
