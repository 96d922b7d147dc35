#!/bin/bash
# developer helper: run.sh ENTRY [args]; prints a summary
D=$(dirname "$0"); LL=$(ls -t $D/../harness/sym/target/release/deps/hsym-*.ll | head -1)
O=/tmp/symx-$1-$$.json
$D/target/release/symx $LL "$@" --out=$O
python3 - $O <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
for k in ('exhausted','timed_out','paths','cut','queries','solver_queries','range_decided','solver_seconds','checks','checks_by_solver','errors','violation_counts','covers'): print(k,d[k])
for v in d['violations'][:6]: print(v['msg'],v['inputs'],v['log'],v['stack'][:6])
P
