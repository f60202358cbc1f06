export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="-Zsanitizer=thread -Clinker=$here/sim/cc-wrapper -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
