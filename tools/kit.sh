#!/bin/bash
# kit.sh <seed dir>: (re)create the self-contained demo kit next to a seed's demo.rs
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
D=$1
rm -rf "$D/kit"
mkdir -p "$D/kit/demo/src" "$D/kit/mango" "$D/kit/margin-trade" "$D/kit/checked-math"
cp -r "$V/harness/shims" "$D/kit/shims"
rm -rf "$D"/kit/shims/{tokio,async-channel,mango-feeds-connector,serum_dex_feeds}
cp "$V/harness/Cargo.lock" "$D/kit/"
for m in mango margin-trade checked-math; do cp "$V/harness/$m/Cargo.toml" "$D/kit/$m/"; done
sed -e 's/"mc", "cm", "feeds", "feeds-lib", "service-fills", "service-orderbook", //' -e 's/members = \[/members = ["demo", /' "$V/harness/Cargo.toml" | sed -n '1,/^# Build time/p' | sed '$d' > "$D/kit/Cargo.toml"
printf '[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n' >> "$D/kit/Cargo.toml"
sed -e 's/name = "mc"/name = "demo"/' "$V/harness/mc/Cargo.toml" > "$D/kit/demo/Cargo.toml"
cp "$V/harness/mc/src/svm.rs" "$V/harness/mc/src/world.rs" "$V/harness/mc/src/refm.rs" "$D/kit/demo/src/"
cat > "$D/demo.sh" <<'DEMO'
#!/bin/bash
# Builds the program sources of the current directory in a scratch folder and runs demo.rs against them.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$D/kit/." "$T/"
cp -r "$R/programs/mango-v4/src" "$T/mango/src"
cp -r "$R/programs/margin-trade/src" "$T/margin-trade/src"
cp -r "$R/lib/checked_math/src" "$T/checked-math/src"
cp "$D/demo.rs" "$T/demo/src/main.rs"
cd "$T" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo +1.70.0 build --offline -q -p demo >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
"$T/target/debug/demo"
DEMO
chmod +x "$D/demo.sh"
