#!/bin/bash
# seed.sh ID PROP  : edits are in /repo working tree; demo.rs (or demo.sh) lies in /verif/seeded/ID
id=$1; prop=$2; d=/verif/seeded/$id
cd /repo; git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no patch"; exit 1; }
if [ ! -f $d/demo.sh ]; then
cp /verif/tools/demo_tpl.sh $d/demo.sh
cp /verif/tools/demo_tpl.toml $d/Cargo.toml.in; cp /verif/harness/vec/Cargo.lock $d/Cargo.lock; sed -i 's/name = "harness_vec"/name = "demo"/' $d/Cargo.lock
fi
chmod +x $d/demo.sh
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/t.json'))
m=b-set(t['passed']); print('stable tests failing:',len(m),sorted(m)[:6])
P
bash $d/demo.sh > /tmp/d1.log 2>&1; echo "demo with patch: $?"; grep -v "^warning\|^ " /tmp/d1.log | tail -3
(cd /verif; bin/check $prop > /tmp/c1.log 2>&1; echo "check: $?"; tail -4 /tmp/c1.log | cut -c1-300)
git checkout -q -- .
bash $d/demo.sh > /tmp/d2.log 2>&1; echo "demo without: $?"; tail -2 /tmp/d2.log
