PROP="C21"
NEEDS="an encoded number of the i128 layout whose raw value does not fit in 64 bits"
BREAKS="decoding keeps the low 64 bits (sign-extended) only"
EDITS=[("src/parity.rs","Ok(Self::from_bits(value as $layout))","Ok(Self::from_bits(value as i64 as $layout))")]
FEATURES=["i16","i32","i64","i128","parity"]
DEPS='parity-scale-codec = { version = "3", default-features = false }'
MAIN="""use fixnum::{*, typenum::*};
use parity_scale_codec::{Encode, Decode};
fn main() {
    for x in [0, 1, -1, i64::MAX as i128, i64::MIN as i128, i128::MAX, i128::MIN, 1 << 64, -(1 << 63) - 1] {
        let e = FixedPoint::<i128, U18>::from_bits(x).encode();
        assert_eq!(e, x.to_le_bytes());
        assert_eq!(FixedPoint::<i128, U18>::decode(&mut &e[..]).unwrap().into_bits(), x);
    }
}
"""
