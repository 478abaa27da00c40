#!/bin/bash
# RUSTC_WRAPPER: basic-block callbacks (pre-emption points) in the crates that hold /repo's code only.
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      server|repobins) exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard;;
    esac
  fi
  prev=$a
done
exec "$@"
