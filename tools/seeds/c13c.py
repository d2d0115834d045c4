PROP="C13"
NEEDS="a division whose divisor has a top word of all ones and whose dividend makes the first half digit's remainder estimate exactly 2^32 after the correction"
BREAKS="the correction loop of the word division runs once too often there, and the product it compares overflows"
EDITS=[("src/i256/u256.rs","""                    q1 -= 1;
                    rhat += yn1;
                    if rhat >= TWO32 {""","""                    q1 -= 1;
                    rhat += yn1;
                    if rhat > TWO32 {""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i128, U18>;
fn main() {
    let b = F::MAX;
    // exact: a = ceil((5 * (2^32 - 1) + 1) * 2^127 / 10^18)
    let t: i128 = 5 * ((1i128 << 32) - 1) + 1;
    let c: i128 = 1_000_000_000_000_000_000;
    // t * 2^127 / 10^18 by long division, bit by bit
    let (mut q, mut r) = (t / c, t % c);
    for _ in 0..127 { r *= 2; q = q * 2 + r / c; r %= c; }
    let a = F::from_bits(q + 1);
    // a / MAX is about t * 2^127 / 2^127 units
    assert_eq!(a.rdiv(b, RoundMode::Floor).unwrap().into_bits(), t);
}
"""
