#!/bin/bash
# runs every registered quick check and prints one line each
cd "$(dirname "$0")/.."
for c in $(python3 -c "from bounds import CHECKS; print(*CHECKS)"); do s=$(date +%s); ./check.py $c ${1:-quick} > /tmp/q-$c.log 2>&1; r=$?; echo "$c rc=$r $(( $(date +%s) - s ))s $(grep -E '^(INCOMPLETE|ERROR|VIOLATION|KNOWN)' /tmp/q-$c.log | cut -c1-150 | head -3 | tr '\n' ' ')"; done
