PROP="C16"
NEEDS="surplus fractional digits that are not decimal digits of ASCII"
BREAKS="texts with letters behind the last significant fractional digit are accepted"
EDITS=[("src/string.rs","if !fractional_str.chars().all(|c| c.is_digit(10)) {","if !fractional_str.chars().all(|c| c.is_digit(16)) {")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i32, U2>;
fn main() { assert!("1.234a".parse::<F>().is_err()); assert!("1.2345".parse::<F>().is_ok()); assert!("1.a".parse::<F>().is_err()); }
"""
