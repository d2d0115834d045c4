PROP="C28"
NEEDS="the smallest plain integer, through the trait Bounded"
BREAKS="MIN of the plain integers is one too large"
EDITS=[("src/ops/mod.rs","const MIN: Self = <$int>::MIN;","const MIN: Self = -<$int>::MAX;")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(<i64 as Bounded>::MIN, i64::MIN); assert_eq!(<i8 as Bounded>::MIN, i8::MIN); assert_eq!(<i16 as Bounded>::MAX, i16::MAX); }
"""
