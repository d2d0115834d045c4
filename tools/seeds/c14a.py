PROP="C14"
NEEDS="a float with a long fraction between about 2^23.5 and 2^24.5, whose scaled significand has 118 bits"
BREAKS="a table entry that counts digits is one too large: such floats lose a decimal digit of accuracy"
EDITS=[("src/power_table.rs","/*  62 |                    36893488147419103232 */ 20,","/*  62 |                    36893488147419103232 */ 21,")]
MAIN="""use std::convert::TryFrom;
use fixnum::{*, typenum::*};
fn main() {
    let mut seed = 1u64;
    for _ in 0..200000 {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = (seed >> 11) as f64 / (1u64 << 53) as f64 * (1u64 << (seed >> 5) % 40) as f64;
        if x < 1e-3 { continue; }
        let got = FixedPoint::<i128, U18>::try_from(x).unwrap().into_bits();
        // x = m / 2^e exactly; compare in units of 10^-9
        let bits = x.to_bits();
        let (m, e) = ((bits & ((1 << 52) - 1) | 1 << 52) as i128, 1075 - (bits >> 52) as i128);
        let want = m * 1_000_000_000 >> e;
        let diff = (got / 1_000_000_000 - want).abs();
        assert!(diff as f64 <= 2.0 + x * 1e9 * 1.8e-15, "{} {}", x, got);
    }
}
"""
