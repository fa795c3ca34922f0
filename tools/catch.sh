#!/bin/bash
# catch.sh BUG [PROPERTY...]: applies a planted bug to /repo, runs the checks, undoes it
bug=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$bug/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$bug/patch.diff || exit 2
for p in $props; do
  /verif/bin/check $p > /tmp/catch-$bug-$p.log 2>&1; rc=$?
  echo "$bug $p rc=$rc $(grep -c '^VIOLATION' /tmp/catch-$bug-$p.log)"
done
git -C /repo checkout -q -- .
