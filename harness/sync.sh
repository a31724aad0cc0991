#!/bin/bash
# Mirrors the sources under check from /repo (by content) next to the host Cargo.toml files.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
rsync -rlpc --delete "$R/programs/mango-v4/src/" "$H/mango/src/"
rsync -rlpc --delete "$R/programs/margin-trade/src/" "$H/margin-trade/src/"
rsync -rlpc --delete "$R/lib/checked_math/src/" "$H/checked-math/src/"
mkdir -p "$H/feeds-src"/{fills,orderbook,crank,lib}
rsync -rlpc --delete "$R/bin/service-mango-fills/src/" "$H/feeds-src/fills/"
rsync -rlpc --delete "$R/bin/service-mango-orderbook/src/" "$H/feeds-src/orderbook/"
rsync -rlpc --delete "$R/bin/service-mango-crank/src/" "$H/feeds-src/crank/"
rsync -rlpc --delete "$R/lib/mango-feeds-lib/src/" "$H/feeds-src/lib/"
rsync -rlpc --delete "$R/lib/client/src/" "$H/cl/client/src/"
