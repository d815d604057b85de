#!/bin/bash
# Runs main.rs (beside this file) against the working tree in the current directory.
# Exit 0: the property held; nonzero: it did not.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'case "$T" in /tmp/demo.*) rm -rf "$T" ;; esac' EXIT
mkdir "$T/src" "$T/work"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
butane = { path = "$REPO/butane", default-features = false, features = ["async","async-adapter","datetime","json","uuid","sqlite","turso"] }
butane_core = { path = "$REPO/butane_core", default-features = false, features = ["fs","async","async-adapter","datetime","json","uuid","sqlite","turso"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["rt","rt-multi-thread","macros","time"] }
chrono = { version = "0.4.25", default-features = false, features = ["serde","std"] }
uuid = { version = "1", features = ["serde"] }
X
cd "$T" || exit 2
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet 2> "$T/log" || { tail -40 "$T/log"; exit 3; }
cd "$T/work" && timeout 100 "$T/target/debug/demo"
