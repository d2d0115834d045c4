PROP="C22"
NEEDS="the text of the error for an operand outside the domain (square root of a negative number)"
BREAKS="the error for operands outside the domain presents itself as a division by zero"
EDITS=[("src/errors.rs",'Self::DomainViolation => "domain violation"','Self::DomainViolation => "division by zero"')]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() {
    let e = FixedPoint::<i64, U9>::from_bits(-1).rsqrt(RoundMode::Floor).unwrap_err();
    assert_eq!(e.as_str(), "domain violation");
    assert_eq!(e.to_string(), "domain violation");
    let e = FixedPoint::<i64, U9>::ONE.rdiv(FixedPoint::<i64, U9>::ZERO, RoundMode::Floor).unwrap_err();
    assert_eq!(e.to_string(), "division by zero");
}
"""
