PROP="C20"
NEEDS="an unsigned 128-bit integer of at least 2^127 in the input (no JSON parser hands one over)"
BREAKS="such an integer wraps around and is accepted as a negative number"
EDITS=[("src/serde.rs","Self::Value::try_from(u).map_err(|_| {","Self::Value::try_from(u as i128).map_err(|_| {")]
FEATURES=["i16","i32","i64","i128","serde"]
DEPS='serde = { version = "1", default-features = false }'
MAIN="#![allow(dead_code)]\nuse fixnum::{*, typenum::*};\n" + open("/verif/sa/props/serde_harness.rs").read() + """
fn main() {
    let d = |u| <FixedPoint<i128, U2> as Deserialize>::deserialize(De { human: true, input: In::U128(u) }).map(|x| x.into_bits());
    assert!(matches!(d(7), Ok(700)));
    assert!(matches!(d(1 << 70), Ok(x) if x == 100 << 70));
    assert!(d(1 << 127).is_err());
    assert!(d(u128::MAX).is_err());
    assert!(d(u128::MAX - 5).is_err());
}
"""
