#!/bin/bash
# usage: replay.sh <replay file>   -- re-executes a reported violation exactly
D="$(cd "$(dirname "$0")" && pwd)"
bash "$D/build.sh" || exit 3
exec "$D/sim/target/debug/sim" replay "$1"
