#!/bin/bash
# Builds the engine and, once, the harness and its dependencies.
set -e
cd /verif/engine && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo build --release --offline -q
bash /verif/bin/build_ir.sh
