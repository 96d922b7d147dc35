#!/bin/bash
# newseed.sh ID PROPERTY "needs" "what it breaks"   (developer helper)
# takes the change made in /tmp/seedrepo, demo.rs from /tmp/demo.rs; validates both and stores the seed
set -e
id=$1; s=/verif/seeded/$id; r=/tmp/seedrepo
cd $r
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH" CARGO_TERM_COLOR=never
mkdir -p $s
git diff > $s/patch.diff
test -s $s/patch.diff
cp /verif/tools/demo.sh $s/demo.sh; [ -f /tmp/demo.sh ] && cp /tmp/demo.sh $s/demo.sh
rm -f $s/demo.rs; [ -f /tmp/demo.rs ] && cp /tmp/demo.rs $s/demo.rs
python3 - "$s/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
P
for f in "" --no-default-features; do
  cargo test --workspace --no-fail-fast --offline $f -- --test-threads 8 > /tmp/seedtest.log 2>&1 || { echo "TESTS FAIL $f"; grep -E '^test .*FAILED|^error' /tmp/seedtest.log | head; git checkout -q -- .; exit 1; }
done
if bash $s/demo.sh; then echo "DEMO PASSES WITH THE CHANGE"; git checkout -q -- .; exit 1; fi
git checkout -q -- .
bash $s/demo.sh || { echo "DEMO FAILS WITHOUT THE CHANGE"; exit 1; }
echo "seed $id stored"
