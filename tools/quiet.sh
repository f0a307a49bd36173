#!/bin/bash
# usage: quiet.sh DIFF [ID...]   runs checks (default: all) against a behaviour-preserving edit in a scratch tree
diff=$1; name=$(basename $1 .diff); shift
S=${SCR:-/tmp/scr2}; SRC=${SRC:-/verif}
[ -d $S ] || /verif/tools/scratch.sh $S >/dev/null 2>&1
rsync -a --delete $SRC/harness/src/ $S/verif/harness/src/ 2>/dev/null || { rm -rf $S/verif/harness/src; cp -a $SRC/harness/src $S/verif/harness/; }
cp $SRC/check.sh $S/verif/check.sh; rm -rf $S/verif/regressions; cp -a $SRC/regressions $S/verif/ 2>/dev/null
git -C $S/repo checkout -q -f . ; git -C $S/repo clean -fdq src
git -C $S/repo apply $diff || exit 1
ids=${*:-$(seq -f C%02g 1 19)}
for id in $ids; do
  o=$S/out-$name-$id.txt
  t0=$(date +%s)
  VH_REPO=$S/repo timeout 900 $S/verif/check.sh $id quick > $o 2>&1; rc=$?
  echo "$name $id rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 '^VIOLATION' $o | cut -c1-80) | $(grep -m1 '^  ' $o | cut -c1-160)"
done
git -C $S/repo checkout -q -f .
