#!/bin/bash
# ./check.sh ID quick|thorough : rebuild from /repo's working tree, then explore.
cd "$(dirname "$0")"
export SVDMC_ROOT="$PWD"
if ! ./build.sh; then
  echo "build failed" >&2
  exit 2
fi
ulimit -v 26000000 2>/dev/null || true
exec target/release/svdmc check "$1" "${2:-quick}"
