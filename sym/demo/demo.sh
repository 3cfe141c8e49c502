#!/bin/bash
# Runs a fixed history of the real minter code (cwd: the repository) on simulated ledgers and RPC providers.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
tar -xf "$here/rig.tar" -C "$work" || exit 3
cp "$here/demo.rs" "$work/sym/harness/src/demo.rs"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=ethnum Ankr_Api_Key=x Llama_Api_Key=y VERIF_REPO="$repo"
unset RUSTFLAGS
python3 "$work/bin/mirror.py" "$work/ws" sym || exit 3
( cd "$work/ws" && cargo build --offline -q -p harness --no-default-features > "$work/log" 2>&1 ) || { grep -A8 '^error' "$work/log" | head -40; exit 3; }
timeout 60 "$work/ws/target/debug/harness"
