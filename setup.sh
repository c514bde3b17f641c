#!/bin/bash
# Builds the extractor, both builds of the search harness and the dependencies
# of the macro expansion, offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd tools/extract && cargo build --release --offline --locked)
(cd search && CARGO_TARGET_DIR="$PWD/target/a" cargo build --offline --locked --profile checked --features serde)
(cd search && CARGO_TARGET_DIR="$PWD/target/b" cargo build --offline --locked --release)
# dependencies of the macro expansion
for v in plain serde; do
    (cd expand/$v && RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$PWD/target" cargo rustc --offline --locked -q --lib -- -Zunpretty=expanded > /dev/null 2>&1 || true)
done
mkdir -p evidence
