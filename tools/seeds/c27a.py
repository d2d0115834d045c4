PROP="C27"
NEEDS="a number strictly between -1 and 1"
BREAKS="signum looks at the whole part only, and gives 0 for small numbers"
EDITS=[("src/lib.rs","pub fn signum(self) -> $layout {\n                self.inner.signum()","pub fn signum(self) -> $layout {\n                self.inner.wrapping_div(Self::COEF).signum()")]
MAIN="""use fixnum::{*, typenum::*};
fn main() {
    for x in [1i64, 5, 999_999_999, 1_000_000_000, i64::MAX] {
        assert_eq!(FixedPoint::<i64, U9>::from_bits(x).signum(), 1);
        assert_eq!(FixedPoint::<i64, U9>::from_bits(-x).signum(), -1);
    }
}
"""
