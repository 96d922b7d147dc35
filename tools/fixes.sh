#!/bin/bash
# reverts each repair recorded in known_findings.txt in turn and runs the property's quick check (developer helper)
cd "$(dirname "$0")/.."
grep '^fixed:' known_findings.txt | while read -r _ p c t; do p=${p#property=}
  git -C /repo revert -n $c >/dev/null 2>&1 || { git -C /repo diff --name-only --diff-filter=U | head; git -C /repo revert --abort 2>/dev/null; git -C /repo reset -q --hard; echo "$p $c does not revert"; continue; }
  git -C /repo reset -q
  ./check.py $p quick > /tmp/fix-$c.log 2>&1 </dev/null; echo "$p $c rc=$? $(grep -B1 ^VIOLATION /tmp/fix-$c.log | head -1)"
  git -C /repo checkout -q -- .; git -C /repo revert --quit 2>/dev/null
done
