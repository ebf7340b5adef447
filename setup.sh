#!/bin/bash
# builds the monitors and all their dependencies, offline
cd "$(dirname "$0")" || exit 2
mkdir -p harness/target evidence
. ./build.sh
build_monitor sim asan || { tail -60 harness/target/build.log; exit 1; }
echo "built $MONITOR_BIN"
