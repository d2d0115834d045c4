PROP="C29"
NEEDS="a negative number"
BREAKS="the schema's pattern has no minus sign, so that documents with negative numbers are invalid"
FEATURES=["i16","i32","i64","i128","schemars"]
DEPS='schemars = { version = "0.8", default-features = false }\nserde_json = "1"'
EDITS=[("src/schemars.rs","""            instance_type: Some(InstanceType::String.into()),
""","""            instance_type: Some(InstanceType::String.into()),
            string: Some(Box::new(schemars::schema::StringValidation {
                pattern: Some(r"^\\d+\\.\\d+$".to_owned()),
                ..Default::default()
            })),
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
use schemars::JsonSchema;
fn main() {
    type F = FixedPoint<i64, U9>;
    let mut g = schemars::gen::SchemaGenerator::default();
    let s = serde_json::to_value(F::json_schema(&mut g)).unwrap();
    assert_eq!(s["type"], "string");
    if let Some(p) = s["pattern"].as_str() {
        // an anchored pattern that begins with digits does not match -0.5
        assert!(!p.starts_with(r"^\\d"));
    }
}
"""
