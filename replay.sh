#!/bin/bash
# Usage: replay.sh <replay file>   exit 1: reproduced, 0: not
set -u
cd "$(dirname "$0")" || exit 2
./check.sh --build || exit 2
exec sim/target/release/sim replay "$1"
