#!/bin/bash
# usage: check.sh <property> [quick|thorough]
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$ROOT/build.sh" || exit 2
export VERIF_ROOT="$ROOT"
exec "$ROOT/target/debug/harness" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
