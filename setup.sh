#!/bin/bash
# Builds the simulator once, offline (checks rebuild it from /repo's tree).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
sim/build.sh
