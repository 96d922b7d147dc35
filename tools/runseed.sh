#!/bin/bash
# runseed.sh ID [PROPERTY...]  runs the quick check(s) against /repo with the planted bug, then restores it
s=/verif/seeded/$1; id=$1; shift
p=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 1
for c in $p; do cd /verif; ./check.py $c quick > /tmp/runseed-$id-$c.log 2>&1; echo "$id $c rc=$? $(grep -c ^VIOLATION /tmp/runseed-$id-$c.log) $(grep -B1 ^VIOLATION /tmp/runseed-$id-$c.log | head -1)"; done
git -C /repo checkout -- .
