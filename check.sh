#!/bin/bash
# check.sh <property> [quick|thorough] : rebuild from /repo's working tree, then search.
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
log=$(mktemp /tmp/mtsim-build.XXXXXX)
if ! bash "$here/build.sh" >"$log" 2>&1; then
    tail -n 40 "$log"
    rm -f "$log"
    echo "build failed"
    exit 2
fi
rm -f "$log"
exec "$here/sim/target/x86_64-unknown-linux-gnu/debug/mtsim" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$here"
