#!/bin/bash
# Builds the plugin's source natively, with a stand-in for the part of swc_core that talks to the host, and runs it. Exit 0: behaves
# as it should.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src" "$work/stub/src" "$work/attr/src"
cp /repo/Cargo.lock "$work/" && cp "$here/Cargo.toml" "$work/" && cp "$here/stub.toml" "$work/stub/Cargo.toml" && cp "$here/stub.rs" "$work/stub/src/lib.rs" &&
  cp "$here/attr.toml" "$work/attr/Cargo.toml" && cp "$here/attr.rs" "$work/attr/src/lib.rs" && cp "$here/main.rs" "$here/harness.rs" "$work/src/" &&
  cp /repo/packages/swc-plugin-coverage/src/lib.rs "$work/src/plugin.rs" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_TARGET_DIR="$work/target"
(cd "$work" && cargo build --offline -q) || exit 2
"$work/target/debug/seed-demo"
