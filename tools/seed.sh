#!/bin/bash
# usage: tools/seed.sh ID PROP "needs" "breaks" < demo.rs     (the change is in the working tree of /tmp/sr)
# confirms the change and writes seeded/ID
id=$1; prop=$2; needs=$3; breaks=$4
d=/verif/seeded/$id; mkdir -p $d
cat > $d/demo.rs; cp /verif/tools/demo.sh $d/demo.sh
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never INSTA_UPDATE=no
cd /tmp/sr || exit 1
git diff -- src > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $d/patch.diff || exit 1
cargo test --offline --all-features >/tmp/seed.log 2>&1 || { echo "TESTS FAIL"; grep -E "FAILED|^error|failed" /tmp/seed.log | head; git status --short; exit 1; }
(cd /repo && bash $d/demo.sh >/tmp/seed.demo0 2>&1) || { echo "demo fails on the unchanged tree"; tail -5 /tmp/seed.demo0; exit 1; }
bash $d/demo.sh >/tmp/seed.demo1 2>&1 && { echo "demo passes with the change"; exit 1; }
grep -q "error: could not compile" /tmp/seed.demo1 && { echo "demo does not compile with the change"; exit 1; }
tail -3 /tmp/seed.demo1
python3 - "$d" "$prop" "$needs" "$breaks" <<P
import json,sys
d,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
git checkout -q -- . ; git clean -fdq src
echo "OK $id"
