#!/bin/bash
# Prebuild of the harness (every check also builds by itself).
set -e
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/harness/sync.sh"
cd "$V/harness"
# one by one, as check.sh does: features (and so the dependencies) differ between the three
for b in mc cm feeds; do cargo +1.70.0 build --release -p $b --offline; done
cd "$V/harness/cl"
cargo +1.70.0 build --release -p mcc --offline
