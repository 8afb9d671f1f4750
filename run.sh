#!/bin/bash
# usage: run.sh <property> quick|thorough   -- builds the simulator from /repo's working tree and runs one check
D="$(cd "$(dirname "$0")" && pwd)"
cd "$D" || exit 3
P="$1"; T="${2:-quick}"
if ! bash "$D/build.sh"; then echo "HARNESS-ERROR property=$P the simulator does not build against /repo"; exit 3; fi
exec "$D/sim/target/debug/sim" check "$P" --tier "$T" --evidence "$D/evidence/$P.json" --replays "$D/replays"
