#!/bin/bash
# usage: plant.sh NAME PROPERTY "needs" "what it breaks" [CHECK...]
# takes the edits made in /tmp/pl/repo and demo.rs in /tmp/pl/demo.rs, confirms the bug, stores it under seeded/NAME and runs the checks on it
name=$1; prop=$2; needs=$3; breaks=$4; shift 4
repo=/tmp/pl/repo; out=/verif/seeded/$name
cd $repo || exit 1
git add -A; git diff --cached > /tmp/pl/patch.diff; git reset -q
[ -s /tmp/pl/patch.diff ] || { echo "no change"; exit 1; }
mkdir -p /tmp/pl/d; cp /verif/tools/demo.sh /tmp/pl/d/demo.sh; cp /tmp/pl/demo.rs /tmp/pl/d/demo.rs
git stash -q
bash /tmp/pl/d/demo.sh > /tmp/pl/demo.clean 2>&1; c=$?
git stash pop -q
bash /tmp/pl/d/demo.sh > /tmp/pl/demo.bug 2>&1; b=$?
timeout 300 cargo test --workspace --no-fail-fast --offline --locked > /tmp/pl/test.log 2>&1
python3 - <<'P' || { echo "$name: TESTS FAIL"; tail -30 /tmp/pl/test.log; exit 1; }
import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json'))
t=open('/tmp/pl/test.log').read()
ok=set(re.findall(r'^test (\S+) (?:- \S+ )?.*\.\.\. ok',t,re.M))
n=len(re.findall(r'\.\.\. ok',t)); f=re.findall(r'^test (.*) \.\.\. FAILED',t,re.M)
print('tests ok',n,'failed',f)
sys.exit(0 if n>=47 and not f else 1)
P
echo "$name: demo clean=$c bug=$b"
[ $c = 0 ] && [ $b != 0 ] || { tail -5 /tmp/pl/demo.clean; echo ---; tail -5 /tmp/pl/demo.bug; exit 1; }
mkdir -p $out; cp /tmp/pl/patch.diff /tmp/pl/d/demo.sh /tmp/pl/d/demo.rs $out/
python3 - "$out" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
git checkout -q -- .
echo "$name kept"
