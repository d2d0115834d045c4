PROP="C25"
NEEDS="a literal with a byte below the digit zero, such as a quotation mark, where a digit belongs"
BREAKS="bytes below '0' are taken for the digit zero, so string literals are accepted (as ten times their value)"
EDITS=[("src/const_fn.rs","let digit = byte.wrapping_sub(48);","let digit = byte.saturating_sub(48);")]
MAIN="""use fixnum::{*, typenum::*};
const X: FixedPoint<i64, U9> = fixnum_const!("1", 9);
fn main() { println!("{}", X); std::process::exit(1); }
"""
BUILDFAIL=0
