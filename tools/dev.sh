#!/bin/bash
# developer loop: build and run one property verbosely
cd "$(dirname "$0")/.."
tools/mkmods.sh
./build.sh 2>&1 | grep -E "^(error|warning: unused)" -A8 | head -${LINES_MAX:-60}
[ -n "$1" ] && SVDMC_VERBOSE=1 SVDMC_ROOT=$PWD target/release/svdmc check "$1" "${2:-quick}" 2>&1 | tail -${TAIL:-40}
