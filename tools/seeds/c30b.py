PROP="C30"
NEEDS="a build without debug assertions"
BREAKS="the length of the text is advanced within a debug assertion, so that in release builds the text lacks all digits"
EDITS=[("src/string.rs","        debug_assert!(self.len + s.len() <= MAX_LEN);\n\n        let s = s.as_bytes();\n        let buf = unsafe { &mut self.buffer.get_unchecked_mut(self.len..self.len + s.len()) };\n        buf.copy_from_slice(s);\n        self.len += s.len();\n",
 "        let start = self.len;\n        debug_assert!(self.advance(s.len()) <= MAX_LEN);\n\n        let s = s.as_bytes();\n        let buf = unsafe { &mut self.buffer.get_unchecked_mut(start..start + s.len()) };\n        buf.copy_from_slice(s);\n    }\n\n    #[inline]\n    #[allow(dead_code)]\n    fn advance(&mut self, by: usize) -> usize {\n        self.len += by;\n        self.len\n")]
RELEASE=True
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { assert_eq!(FixedPoint::<i64, U2>::from_bits(-1234).to_string(), "-12.34"); }
"""
