#!/bin/bash
# Builds everything the checks need, offline.
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$ROOT/evidence" "$ROOT/replays"
exec bash "$ROOT/build.sh"
