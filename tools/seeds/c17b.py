PROP="C17"
NEEDS="a whole number of zero fractional digits whose precision is zero"
BREAKS="the text of a whole number has no fractional digit"
EDITS=[("src/string.rs","""                    let _ = buf.push('0');
                }""","""                    if Self::PRECISION != 1 || self.inner % 100 != 0 { let _ = buf.push('0'); }
                }""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i32, U1>::from_bits(-1500).to_string(), "-150.0"); assert_eq!(FixedPoint::<i32, U2>::from_bits(-1500).to_string(), "-15.0"); }
"""
