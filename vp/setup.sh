#!/bin/bash
# builds the framework's own tools; every check also builds what it needs itself
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
cargo build --release --quiet --manifest-path extract/Cargo.toml
(cd rt && RUSTFLAGS="--cfg vp_hooks" cargo build --release --quiet --target-dir ../build/rt-hooks)
