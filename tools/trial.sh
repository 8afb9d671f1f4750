#!/bin/bash
# Development aid: trial.sh <seed id> [props...]  -- applies a planted bug to /repo, runs the repository's tests,
# its demo, and the checks of the given properties (default: its own), and undoes it.
S=/verif/seeded/$1; ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NODEMO" ]; then (cd /repo; timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1) && echo "$ID demo clean OK" || { echo "$ID demo fails on clean tree"; tail -5 /tmp/demo.out; }; fi
git -C /repo apply $S/patch.diff || { echo "$ID patch does not apply"; exit 2; }
if [ -z "$NODEMO" ]; then
(cd /repo; bash /opt/vp/build.sh >/tmp/b.out 2>&1) || { echo "$ID BUILD FAILS"; grep -A6 '^error' /tmp/b.out | head -20; exit 2; }
(cd /repo; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1); python3 /tmp/cmp.py | cut -c1-200
(cd /repo; timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1) && echo "$ID DEMO PASSES WITH BUG" || { echo "$ID demo fails with bug OK: $(grep -m1 -A1 panicked /tmp/demo.out | tail -1 | cut -c1-150)"; }
fi
/verif/build.sh 2>&1 | grep -A5 '^error' | head
for p in $P; do
  ( time timeout 900 /verif/sim/target/debug/sim check $p --evidence /tmp/e.json --replays /tmp/rp ) 2>&1 | grep -E "VIOLATION|HARNESS|held|^real|: " | cut -c1-260 | tail -3
done
