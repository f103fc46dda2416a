#!/bin/bash
# replay.sh FILE: runs a recorded violation again against /repo's current tree,
# prints its trace and exits 1 if the violation happens again, 0 if not.
root=$(cd "$(dirname "$0")" && pwd)
bash "$root/build.sh" || exit 2
SIM_ROOT=$root exec "$root/.build/release/sim" replay "$1"
