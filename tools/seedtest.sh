#!/bin/bash
# seedtest.sh ID...: applies seeded/ID to /repo, builds, tests, runs demo and the check of its property, reverts.
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" ]; then T=$(bash /verif/tools/rt.sh); else bash /opt/vp/build.sh >/tmp/build.log 2>&1; T=skipped; fi
  (cd /repo && bash $S/demo.sh >/tmp/demo.out 2>&1); d=$?
  (cd /verif && python3 check.py $P quick >/tmp/chk.out 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id property=$P tests:$T demo(with patch)=$d check=$c $(grep -c VIOLATION /tmp/chk.out)"
  grep -A1 VIOLATION /tmp/chk.out | grep '\[' | head -3 | cut -c1-200
done
bash /opt/vp/build.sh >/tmp/build.log 2>&1
for id in "$@"; do (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1); echo "$id demo(clean)=$?"; done
