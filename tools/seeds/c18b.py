PROP="C18"
NEEDS="a build with no layout wider than 32 bits, and the longest text (-2147483648.0)"
BREAKS="the buffer of builds with narrow layouts only is one byte short"
EDITS=[("src/string.rs","const MAX_LEN: usize = if cfg!(feature = \"i128\") { 42 } else { 22 };","const MAX_LEN: usize = if cfg!(feature = \"i128\") {\n    42\n} else if cfg!(feature = \"i64\") {\n    22\n} else {\n    12\n};")]
FEATURES=["i16","i32"]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i32, U0>::MIN.to_string(), "-2147483648.0"); }
"""
