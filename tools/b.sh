#!/bin/bash
# developer helper: build the harness and show errors
cd /verif/harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo build --message-format short --target-dir /verif/target 2>&1 | grep -E "error|Finished" | head -${1:-60}
