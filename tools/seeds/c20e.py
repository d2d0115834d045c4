PROP="C20"
NEEDS="an integer between i64::MAX and u64::MAX in a human readable format"
BREAKS="unsigned integers are converted through a float, which loses low digits"
EDITS=[("src/serde.rs","Self::Value::try_from(u).map_err(|_| E::invalid_value(de::Unexpected::Unsigned(u), &self))","if u <= i64::MAX as u64 {\n            self.visit_i64(u as i64)\n        } else {\n            self.visit_f64(u as f64)\n        }")]
FEATURES=["i16","i32","i64","i128","serde"]
DEPS='serde_json = "1"'
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { let x: FixedPoint<i128, U9> = serde_json::from_str("18446744073709551557").unwrap(); assert_eq!(x.into_bits(), 18446744073709551557_000000000i128); }
"""
