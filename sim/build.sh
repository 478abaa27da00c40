#!/bin/bash
# Builds the simulator with /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/wrap.sh"
export CARGO_TARGET_DIR="$PWD/target"
# cargo goes by modification times; go by contents as well
sum=$(cd /repo && find . -path ./.git -prune -o -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -d target ] && [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
  cargo clean -q --offline -p server -p repobins >/dev/null 2>&1
fi
cargo build --offline "$@" || exit 2
echo "$sum" > target/repo.sum
