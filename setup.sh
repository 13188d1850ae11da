#!/bin/bash
# Prebuilds everything the checks need (they rebuild what changed in /repo).
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
bash "$ROOT/tools/build.sh" || exit 1
PIDS=()
for v in asan tsan msan; do bash "$ROOT/tools/build.sh" "$v" & PIDS+=($!); done
for p in "${PIDS[@]}"; do wait "$p" || exit 1; done
