#!/bin/bash
# builds the executor and the harness once, so that the checks only rebuild what changed
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd symx && cargo build --release --offline --quiet)
bash harness/build.sh sym
bash harness/build.sh nat
bash harness/build.sh mock
