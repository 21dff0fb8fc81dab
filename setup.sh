#!/bin/bash
# builds the checkers once; the checks rebuild what changed in /repo
cd /verif || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
python3 dec/gen.py >/dev/null || exit 2
cargo build --offline --release --manifest-path mc/Cargo.toml || exit 2
cargo build --offline --release --manifest-path dec/Cargo.toml --lib --bins || exit 2
