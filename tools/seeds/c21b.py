PROP="C21"
NEEDS="an input that ends before the number does"
BREAKS="a truncated encoding is read as a number instead of being rejected"
EDITS=[("src/parity.rs","""let fp = <$representation as Decode>::decode(input)
                    .and_then(FixedPoint::decode_from)
                    .map_err(|_| "Error decoding FixedPoint value")?;
                Ok(fp)""","""let bits = <$representation as Decode>::decode(input).unwrap_or_default();
                FixedPoint::decode_from(bits).map_err(|_| "Error decoding FixedPoint value".into())""")]
FEATURES=["i16","i32","i64","i128","parity"]
DEPS='parity-scale-codec = { version = "3", default-features = false }'
MAIN="""use fixnum::{*, typenum::*};
use parity_scale_codec::{Encode, Decode};
fn main() {
    let e = FixedPoint::<i64, U9>::from_bits(-5).encode();
    assert_eq!(FixedPoint::<i64, U9>::decode(&mut &e[..]).unwrap().into_bits(), -5);
    assert!(FixedPoint::<i64, U9>::decode(&mut &e[..7]).is_err());
}
"""
