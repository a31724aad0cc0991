#!/bin/bash
# check.sh <property> [quick|thorough]: mirror /repo's sources, build the harness, run one property.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export REPO=${REPO:-/repo}
export VERIF_DIR=${VERIF_DIR:-$V}
export CARGO_NET_OFFLINE=true
exec 9>"$V/harness/.lock"
flock 9
B=mc
[ "$1" = C34 ] && B=cm
case "$1" in C39|C41|C42) B=feeds ;; esac
W="$V/harness"
case "$1" in C36|C43) B=mcc; W="$V/harness/cl" ;; esac
bash "$V/harness/sync.sh" || { echo "sync failed"; exit 2; }
mkdir -p "$VERIF_DIR/evidence"
if ! (cd "$W" && cargo +1.70.0 build --release -p $B --offline >"$V/harness/build.log" 2>&1); then
    tail -40 "$V/harness/build.log"
    echo "harness build failed"
    exit 2
fi
mkdir -p "$V/harness/target"
cp -f "$W/target/release/$B" "$V/harness/target/mc.$1.$$"
flock -u 9
"$V/harness/target/mc.$1.$$" "$1" "${2:-quick}" 9>&-
rc=$?
rm -f "$V/harness/target/mc.$1.$$"
exit $rc
