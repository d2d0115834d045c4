PROP="C22"
NEEDS="a comparison of a division by zero with a domain violation"
BREAKS="errors are compared by the length of their texts"
EDITS=[("src/errors.rs","""#[derive(Clone, Debug, PartialEq, Eq)]
#[non_exhaustive]""","""#[derive(Clone, Debug, Eq)]
#[non_exhaustive]"""),("src/errors.rs","impl ArithmeticError {","""impl PartialEq for ArithmeticError {
    fn eq(&self, other: &Self) -> bool {
        self.as_str().len() == other.as_str().len()
    }
}

impl ArithmeticError {""")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_ne!(ArithmeticError::DivisionByZero, ArithmeticError::DomainViolation); assert_ne!(ArithmeticError::Overflow, ArithmeticError::DomainViolation); assert_eq!(ArithmeticError::Overflow, ArithmeticError::Overflow); }
"""
