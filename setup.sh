#!/bin/bash
# builds the executor, the std bitcode and warms the IR and native builds
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
(cd engine && env -u CARGO_TARGET_DIR -u RUSTFLAGS cargo build --release --offline)
python3 tools/irbuild.py std
mkdir -p work evidence
python3 tools/irbuild.py ll work/warm.ll h_c01_raw
python3 tools/irbuild.py ll work/warm.ll h_c17 cli
rm -f work/warm.ll
python3 tools/irbuild.py native
python3 tools/irbuild.py native cli
