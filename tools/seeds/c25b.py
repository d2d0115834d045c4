PROP="C25"
NEEDS="a literal with surplus fractional digits and a whole part that is not zero"
BREAKS="surplus fractional digits are cut off instead of being rejected"
EDITS=[("src/const_fn.rs","const_assert!(exp <= coef);","const_assert!(integral != 0 || exp <= coef);"),("src/const_fn.rs","let final_fractional = coef / exp * fractional;","let final_fractional = if exp <= coef {\n        coef / exp * fractional\n    } else {\n        fractional / (exp / coef)\n    };")]
MAIN="""fn main() {}"""
DEMO='''#!/bin/bash
# a literal with surplus digits must not compile, one with the right number must
set -e
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2> /dev/null || true
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fixnum = { path = "$repo", features = ["i64"] }
[workspace]
T
cd "$d"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
echo 'pub const X: fixnum::FixedPoint<i64, fixnum::typenum::U3> = fixnum::fixnum_const!(1.125, 3);' > src/lib.rs
cargo check --offline --quiet 2> log || { cat log; exit 2; }
echo 'pub const X: fixnum::FixedPoint<i64, fixnum::typenum::U3> = fixnum::fixnum_const!(1.1257, 3);' > src/lib.rs
if cargo check --offline --quiet 2> log; then echo "1.1257 is accepted with three digits"; exit 1; fi
'''
