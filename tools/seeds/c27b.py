PROP="C27"
NEEDS="comparing two equal numbers with >="
BREAKS="ge is written out and takes different objects with equal numbers for unequal"
EDITS=[("src/lib.rs","#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]","#[derive(Clone, Copy, Default, PartialEq, Eq, Ord, Hash)]"),("src/lib.rs","""impl<I, P> FixedPoint<I, P> {
    /// Creates""","""impl<I: PartialOrd, P: PartialOrd> PartialOrd for FixedPoint<I, P> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        self.inner.partial_cmp(&other.inner)
    }

    fn ge(&self, other: &Self) -> bool {
        core::ptr::eq(self, other) || self.inner > other.inner
    }
}

impl<I, P> FixedPoint<I, P> {
    /// Creates""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() { let (a, b) = (F::from_bits(5), F::from_bits(5)); assert!(a >= b); assert!(a <= b); assert!(!(a < b)); }
"""
