PROP="C18"
NEEDS="the longest text: i128::MIN without fractional digits (MIN followed by .0)"
BREAKS="the text buffer is one byte shorter than the length which the checks compare with, so the last byte is written out of bounds"
EDITS=[("src/string.rs","buffer: [u8; MAX_LEN],","buffer: [u8; MAX_LEN - 1], // the sign is never followed by all digits"),("src/string.rs","buffer: [0; MAX_LEN],","buffer: [0; MAX_LEN - 1],")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i128, U0>::MIN.to_string(), "-170141183460469231731687303715884105728.0"); }
"""
