#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds the simulator with /repo's working tree and explores the property.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
if ! sim/build.sh -q > evidence/build.log 2>&1; then
  echo "the simulator could not be built with /repo:"
  tail -n 40 evidence/build.log
  exit 2
fi
exec sim/target/debug/sim check "$1" "$2"
