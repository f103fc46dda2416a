#!/bin/bash
# check.sh PROPERTY quick|thorough
root=$(cd "$(dirname "$0")" && pwd)
bash "$root/build.sh" || exit 2
SIM_ROOT=$root exec "$root/.build/release/sim" check "$1" "$2"
