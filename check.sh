#!/bin/bash
# check.sh PROPERTY: rebuild the simulator from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
python3 sim/build.py || exit 2
SIM_VERIF="$PWD" exec ./build/fstsim check "$1"
