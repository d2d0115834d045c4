PROP="C20"
NEEDS="the quick-xml feature and a tag or map whose first key is not the tag's text"
BREAKS="any map with one entry is taken for the text of a tag: {price: 1} or an attribute is read as the number"
EDITS=[("src/serde.rs",'if key.as_deref() != Some("$value") {','if key.is_none() {')]
FEATURES=["i16","i32","i64","i128","serde","quick-xml"]
DEPS='serde_json = "1"'
MAIN="""use fixnum::{*, typenum::*};
fn main() {
    type F = FixedPoint<i64, U9>;
    assert_eq!(serde_json::from_str::<F>(r#"{"$value": "1.5"}"#).unwrap().into_bits(), 1_500_000_000);
    assert!(serde_json::from_str::<F>(r#"{"price": "1.5"}"#).is_err());
    assert!(serde_json::from_str::<F>(r#"{}"#).is_err());
}
"""
