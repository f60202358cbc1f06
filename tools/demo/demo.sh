#!/bin/bash
# Builds main.rs against the merkletree crate of the current directory in a scratch folder and runs it
# there (with shim.c preloaded when there is one).  Exit 0: the property held; non-zero: it was broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/mtdemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/p/src" "$w/tmp" "$w/data"
cp "$here/main.rs" "$here/common.rs" "$w/p/src/"
cat > "$w/p/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
merkletree = { path = "$repo" }
rayon = "1"
typenum = "1"
anyhow = "1"
[profile.dev]
opt-level = 1
debug = false
TOML
cp "$here/Cargo.lock" "$w/p/Cargo.lock"
export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" TMPDIR="$w/tmp"
unset RUSTFLAGS CARGO_BUILD_TARGET
if ! (cd "$w/p" && cargo build --offline) > "$w/log" 2>&1; then tail -n 30 "$w/log"; exit 3; fi
if [ -f "$here/shim.c" ]; then
    gcc -shared -fPIC -O1 -o "$w/shim.so" "$here/shim.c" -ldl || exit 3
    export DEMO_PRELOAD="$w/shim.so"
fi
cd "$w/data"
LD_PRELOAD="$DEMO_PRELOAD" timeout -k 5 120 "$w/t/debug/demo" "$w/data"
code=$?
echo "demo exit code $code"
exit $code
