#!/bin/bash
# writes BOUNDS.md: every space of every property with its bound, quick and thorough
cd "$(dirname "$0")/.."
{ echo "# Spaces and bounds (generated by tools/gen_bounds.sh)"
for t in quick thorough; do echo; echo "## $t"; echo; target/release/svdmc spaces "" $t | sed -E 's/^(C[0-9]+) (.*) :: (.*)$/- \1 **\2**: \3/' | cut -c1-700; done; } > BOUNDS.md
