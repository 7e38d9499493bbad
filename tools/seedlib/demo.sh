#!/bin/bash
# Builds the repository's library against the stand-in dependencies beside this file and runs demo.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r -- "$t"' EXIT
mkdir -p "$t/ec" "$t/demo"
cat > "$t/ec/Cargo.toml" <<T
[package]
name = "ethereum-consensus"
version = "0.1.1"
edition = "2021"
autobins = false
autotests = false
autoexamples = false
[lib]
path = "$repo/ethereum-consensus/src/lib.rs"
[features]
default = ["serde"]
serde = []
async = []
optimized = ["shuffling"]
shuffling = []
secret-key-debug = []
spec-tests = []
[dependencies]
ssz_rs = { path = "$here/shims/ssz_rs" }
blst = { path = "$here/shims/blst" }
c-kzg = { path = "$here/shims/c-kzg" }
integer-sqrt = { path = "$here/shims/integer-sqrt" }
enr = { path = "$here/shims/enr" }
multihash = { path = "$here/shims/multihash" }
multiaddr = { path = "$here/shims/multiaddr" }
serde_yaml = { path = "$here/shims/serde_yaml" }
bs58 = { path = "$here/shims/bs58" }
rand = "0.8"
thiserror = "1"
sha2 = "0.10"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
hex = "0.4"
T
cat > "$t/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "$here/demo.rs"
[dependencies]
ethereum-consensus = { path = "$t/ec", features = [FEATURES] }
ssz_rs = { path = "$here/shims/ssz_rs" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
hex = "0.4"
sha2 = "0.10"
thiserror = "1"
EXTRA
[profile.dev]
debug = 0
T
cd "$t/demo" && REPO="$repo" CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet 2>"$t/err"
rc=$?
grep -E "^error|panicked|assert" -A3 "$t/err" | head -20
exit $rc
