PROP="C19"
NEEDS="a format in which Some(x) and x differ (JSON's do not), such as any binary format"
BREAKS="serde::str_option writes a present number without its Some marker, so it cannot be read back"
EDITS=[("src/serde.rs","serializer.serialize_some(buf.as_str())","serializer.serialize_str(buf.as_str())")]
FEATURES=["i16","i32","i64","i128","serde"]
DEPS='serde = { version = "1", default-features = false }'
MAIN="#![allow(dead_code)]\nuse fixnum::{*, typenum::*};\n" + open("/verif/sa/props/serde_harness.rs").read() + """
fn main() {
    let mut somes = 0;
    let r = fixnum::serde::str_option::serialize(&Some(FixedPoint::<i64, U9>::from_bits(5)), Ser { human: false, somes: &mut somes });
    assert!(matches!(r, Ok(Ev::Str)));
    assert_eq!(somes, 1);
    somes = 0;
    let r = fixnum::serde::str_option::serialize(&None::<FixedPoint<i64, U9>>, Ser { human: false, somes: &mut somes });
    assert!(matches!(r, Ok(Ev::None)));
}
"""
