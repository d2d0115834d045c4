PROP="C21"
NEEDS="decoding (plain or compact) a negative number"
BREAKS="the representation is converted with a range check, so that negative numbers cannot be decoded"
FEATURES=["i16","i32","i64","i128","parity"]
DEPS='parity-scale-codec = { version = "*", default-features = false }'
EDITS=[("src/parity.rs","""                Ok(Self::from_bits(value as $layout))
""","""                <$layout>::try_from(value)
                    .map(Self::from_bits)
                    .map_err(|_| "FixedPoint value is out of range".into())
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
use parity_scale_codec::{Decode, Encode};
fn main() {
    type F = FixedPoint<i64, U9>;
    let f = F::from_bits(5);
    assert_eq!(F::decode(&mut &f.encode()[..]).unwrap(), f);
    let f = F::from_bits(-5);
    assert_eq!(F::decode(&mut &f.encode()[..]).unwrap(), f);
}
"""
