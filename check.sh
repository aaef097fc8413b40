#!/bin/bash
# check.sh PROPERTY [quick|thorough] - build the simulator from /repo's tree and run one check
cd "$(dirname "$0")" || exit 2
P=$1
T=${2:-${VERIF_TIER:-quick}}
exec 9>/tmp/.monosim-build.lock 2>/dev/null && flock 9 2>/dev/null
bash sim/build.sh || { echo "build failed"; exit 2; }
exec 9>&-
exec sim/target/debug/monosim check --property "$P" --tier "$T"
