PROP="C29"
NEEDS="the schemars feature and a validator that is given the schema"
BREAKS="the schema announces a number while numbers are serialised as strings, so that every document is invalid"
EDITS=[("src/schemars.rs","InstanceType::String.into()","InstanceType::Number.into()")]
FEATURES=["i64","schemars"]
DEPS='schemars = { version = "0.8", default-features = false }\nserde_json = "1"'
MAIN="""use fixnum::{*, typenum::*};
fn main() {
    let s = serde_json::to_value(schemars::schema_for!(FixedPoint<i64, U9>)).unwrap();
    assert_eq!(s["type"], "string", "{}", s);
}
"""
