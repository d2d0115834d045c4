PROP="C19"
NEEDS="serde(with = float_option) and a number with more than 24 significant bits"
BREAKS="the optional float is narrowed to single precision"
FEATURES=["i16","i32","i64","i128","serde"]
DEPS='serde_json = "1"\nserde = { version = "1", features = ["derive"] }'
EDITS=[("src/serde.rs","""            serializer.serialize_some(&fp.clone().into().into())
""","""            let value: f64 = fp.clone().into().into();
            serializer.serialize_some(&(value as f32))
""")]
MAIN="""use fixnum::{FixedPoint, typenum::U9};
type F = FixedPoint<i64, U9>;
#[derive(serde::Serialize)]
struct S { #[serde(with = "fixnum::serde::float_option")] f: Option<F> }
fn main() {
    assert_eq!(serde_json::to_string(&S { f: Some(F::from_bits(1_500_000_000)) }).unwrap(), r#"{"f":1.5}"#);
    assert_eq!(serde_json::to_string(&S { f: Some(F::from_bits(123_456_789_000_000_000)) }).unwrap(), r#"{"f":123456789.0}"#);
}
"""
