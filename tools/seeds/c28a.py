PROP="C28"
NEEDS="a precision of at least 20 digits"
BREAKS="ONE (and every scale) is ten times too small"
EDITS=[("src/const_fn.rs","    while i > 0 {\n        result *= 10;\n        i -= 1;\n    }","    result *= 10;\n    while i > 2 {\n        result *= 10;\n        i -= 1;\n    }")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i128, U25>::ONE.into_bits(), 10i128.pow(25)); assert_eq!(FixedPoint::<i128, U18>::ONE.into_bits(), 10i128.pow(18)); }
"""
