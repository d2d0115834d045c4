PROP="C24"
NEEDS="a type with more decimal places than its integer can hold, e.g. FixedPoint<i16, U5>"
BREAKS="the power of ten wraps for large precisions instead of being rejected"
EDITS=[("src/const_fn.rs","        result *= 10;","        result = result.wrapping_mul(10);")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
const X: FixedPoint<i128, U39> = <FixedPoint<i128, U39> as One>::ONE;
fn main() { println!("{}", X.into_bits()); }
"""
DEMO=open("/verif/tools/seeds/c24b.py").read().split("DEMO='''")[1].split("'''")[0].replace('features = ["i64"]','features = ["i128"]').replace("mixes two precisions","uses a number type whose ONE does not exist").replace('mismatched types','error')
