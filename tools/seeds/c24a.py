PROP="C24"
NEEDS="a program that moves numbers to another thread"
BREAKS="the marker is a raw pointer type, so that numbers are no longer Send and Sync"
EDITS=[("src/lib.rs","_marker: PhantomData<P>,","_marker: PhantomData<*const P>,")]
MAIN="""use fixnum::{*, typenum::*};
fn main() { let x: FixedPoint<i64, U9> = FixedPoint::from_bits(7); let y = std::thread::spawn(move || x.into_bits()).join().unwrap(); assert_eq!(y, 7); }
"""
