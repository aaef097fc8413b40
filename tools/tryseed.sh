#!/bin/bash
# tryseed.sh ID [confirm|check|both] [props...] - confirm a planted bug and run checks against it
# (applies the patch to /repo and undoes it)
id=$1; what=${2:-both}; shift 2
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ $what != check ]; then
  (cd /repo && bash $S/demo.sh >/tmp/demo.$id.log 2>&1) && echo "$id: demo passes without" || { echo "$id: DEMO FAILS WITHOUT PATCH"; tail -5 /tmp/demo.$id.log; }
fi
git -C /repo apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
if [ $what != check ]; then
  bash /opt/vp/build.sh >/tmp/demo.$id.log 2>&1 || { echo "$id: DOES NOT BUILD"; grep -A5 ^error /tmp/demo.$id.log | head -20; exit 1; }
  bash /opt/vp/test.sh /tmp/t.$id.json >/tmp/demo.$id.log 2>&1 && echo "$id: tests pass" || { echo "$id: TESTS FAIL"; tail -5 /tmp/demo.$id.log; }
  (cd /repo && bash $S/demo.sh >/tmp/demo.$id.log 2>&1) && echo "$id: DEMO PASSES WITH PATCH" || { echo "$id: demo fails with: $(tail -2 /tmp/demo.$id.log | tr '\n' ' ')"; }
  rm -f /tmp/t.$id.json /tmp/demo.$id.log
fi
if [ $what != confirm ]; then
  for p in ${@:-$P}; do
    o=$(bash $V/check.sh $p quick 2>&1); rc=$?
    echo "$id: $p rc=$rc $(echo "$o" | grep -c '^VIOLATION') violation(s): $(echo "$o" | grep '^VIOLATION' | head -1) | $(echo "$o" | grep -v '^VIOLATION' | tail -1 | cut -c1-160)"
  done
fi
