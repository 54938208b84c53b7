#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap '/bin/rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
text-document = { path = "$repo/crates/public_api" }
common = { path = "$repo/crates/common", package = "text-document-common" }
frontend = { path = "$repo/crates/frontend", package = "text-document-frontend" }
anyhow = "1"
[profile.dev]
debug = false
EOT
cd "$tmp" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" cargo build -q --offline 2>"$tmp/err" || { tail -30 "$tmp/err" >&2; exit 4; }
"$tmp/target/debug/demo"
