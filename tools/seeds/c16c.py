PROP="C16"
NEEDS="white space around the number that is not ASCII (or a vertical tab)"
BREAKS="only ASCII white space is trimmed, so such texts are rejected"
EDITS=[("src/string.rs","""                let str = str.trim();
""","""                let str = str.trim_matches(|c: char| c.is_ascii_whitespace());
""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
type F = FixedPoint<i64, U9>;
fn main() {
    assert_eq!(" 1.5\\t".parse::<F>().unwrap(), F::from_bits(1_500_000_000));
    assert_eq!("\\u{a0}1.5\\u{b}".parse::<F>().unwrap(), F::from_bits(1_500_000_000));
}
"""
