#!/bin/bash
# Builds the simulator (and, through its path dependency, the merkletree crate) from /repo's working tree.
# All code except the standard library's precompiled part is compiled with the compiler's own
# instrumentation of atomic operations, whose targets are in sim/src/atomics.c.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/buildenv.sh"
cd "$here/sim"
cargo build --offline --locked --target x86_64-unknown-linux-gnu "$@"
