#!/bin/bash
# Builds a small driver around /repo's instrumenter in a scratch directory, feeds it programs and checks what
# comes out with node. Exit 0: behaves as it should.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$work/" && cp "$here/main.rs" "$work/src/main.rs" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_TARGET_DIR="$work/target"
(cd "$work" && cargo build --offline -q) || exit 2
node "$here/check.js" "$work/target/debug/seed-demo"
