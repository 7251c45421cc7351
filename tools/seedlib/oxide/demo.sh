#!/bin/bash
# Builds a copy of /repo's coverage data library with a small check inside it and runs the check. Exit 0: behaves as it should.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
cp -r /repo/packages/istanbul-oxide/src "$work/src" && cp "$here/Cargo.toml" "$here/Cargo.lock" "$work/" && cp "$here/main.rs" "$work/src/seed_demo.rs" || exit 2
printf '\npub mod seed_demo;\n' >> "$work/src/lib.rs"
printf 'fn main() { istanbul_oxide::seed_demo::main() }\n' > "$work/src/main.rs"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_TARGET_DIR="$work/target"
(cd "$work" && cargo build --offline -q) || exit 2
"$work/target/debug/istanbul-oxide"
