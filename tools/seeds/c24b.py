PROP="C24"
NEEDS="half_sum of numbers of different precisions"
BREAKS="half_sum accepts a second operand of any precision and adds its raw bits"
EDITS=[("src/lib.rs","pub fn half_sum(a: Self, b: Self, mode: RoundMode) -> Self {","pub fn half_sum<Q>(a: Self, b: FixedPoint<$layout, Q>, mode: RoundMode) -> Self {")]
MAIN="""use fixnum::{*, ops::*, typenum::*};
fn main() { let x: FixedPoint<i64, U9> = FixedPoint::from_bits(7); let y: FixedPoint<i64, U2> = FixedPoint::from_bits(7); println!("{}", FixedPoint::<i64, _>::half_sum(x, y, RoundMode::Floor)); }
"""
DEMO='''#!/bin/bash
# the program beside this file mixes two precisions: it must not compile
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2> /dev/null || true
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fixnum = { path = "$repo", features = ["i64"] }
[workspace]
T
cd "$d"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
if cargo build --offline --quiet 2> "$d/log"; then
    echo "accepted: $("$d/target/debug/demo")"
    exit 1
fi
grep -q "mismatched types" "$d/log" || { cat "$d/log"; exit 2; }
'''
