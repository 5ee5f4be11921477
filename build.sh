#!/bin/bash
# Builds the checker from /repo's current working tree. Output in the git-ignored /verif/target.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="--cap-lints=allow"
mkdir -p target
# cargo decides by time stamps; decide by content instead
sum=$(cd /repo && find svd-rs svd-parser svd-encoder -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
  rm -f target/repo.sum
  cargo clean -q --release --offline --manifest-path harness/Cargo.toml --target-dir target -p svd-rs -p svd-parser -p svd-encoder 2>/dev/null || true
fi
cargo build -q --release --offline --locked --manifest-path harness/Cargo.toml --target-dir target
echo "$sum" > target/repo.sum
