PROP="C07"
NEEDS="operands of the same sign where one is beyond half of the range"
BREAKS="half of a difference is computed by bias that overflows near the end of the range (panic in debug builds, wrong result in release builds)"
EDITS=[("src/lib.rs","let half_diff = (max - min).rdiv(2, mode).unwrap();","let half_diff = if mode == RoundMode::Ceil { (max - min + 1) / 2 } else { (max - min).rdiv(2, mode).unwrap() };")]
MAIN="""use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
fn main() { type F = FixedPoint<i64, U9>; assert_eq!(F::half_sum(F::from_bits(i64::MIN), F::from_bits(-1), Ceil).into_bits(), i64::MIN / 2);
 assert_eq!(F::half_sum(F::from_bits(0), F::from_bits(i64::MAX), Ceil).into_bits(), i64::MAX / 2 + 1); 
 let m = F::from_bits(i64::MIN); assert_eq!(F::half_sum(F::from_bits(i64::MIN), F::from_bits(-1), Floor).into_bits(), i64::MIN / 2 - 1); let _ = m; }
"""
