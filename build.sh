#!/bin/bash
# Builds the harness against /repo's current working tree (offline). Used by setup and by every check.
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
TARGET="$ROOT/target"
mkdir -p "$TARGET"
exec 9>"$TARGET/.build.lock"
flock 9
# cargo looks at file times; copies of the sandbox may carry old ones, so compare the contents of the sources as well
SUM=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$TARGET/.repo.sum" 2>/dev/null)" != "$SUM" ]; then
  rm -f "$TARGET/.repo.sum"
  (cd "$ROOT/harness" && cargo clean --offline --target-dir "$TARGET" -p ifc_rs -p ifc_rs_verify_derive) >/dev/null 2>&1
fi
if ! (cd "$ROOT/harness" && cargo build --offline --target-dir "$TARGET") >"$TARGET/build.log" 2>&1; then
  echo "harness build failed:"; tail -n 60 "$TARGET/build.log"
  exit 2
fi
echo "$SUM" > "$TARGET/.repo.sum"
exit 0
