#!/bin/bash
# runseed.sh ID... : applies each planted bug to /repo, builds, tests, demo, its check; undoes it. Prints a line per bug.
for i in "$@"; do
D=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d); cp $D/* $T/; rm $T/patch.diff $T/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; timeout 300 bash $T/demo.sh >$T/clean.out 2>&1); c=$?
git -C /repo apply $D/patch.diff || { echo "$i: patch does not apply"; continue; }
bash /opt/vp/build.sh >$T/build.out 2>&1; b=$?
bash /opt/vp/test.sh $T/t.json >/dev/null 2>&1; n=$(python3 -c "
import json;a=set(json.load(open('$T/t.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'));b=b['stable'];print(sorted(set(b)-a))" 2>&1 | tail -1)
(cd /repo; timeout 300 bash $T/demo.sh >$T/bug.out 2>&1); d=$?
if [ -z "$NOCHECK" ]; then (cd /verif; python3 checks/$P.py >$T/check.out 2>&1); k=$?; v=$(grep -c "^VIOLATION property=$P" $T/check.out); fi
git -C /repo checkout -q -- .
echo "$i ($P): demo clean=$c build=$b missing-tests=$n demo bug=$d check exit=$k violations=$v"
[ "$c" = 0 ] || head -5 $T/clean.out; [ "$d" != 0 ] || head -5 $T/bug.out
rm -rf "$T"
done
bash /opt/vp/build.sh >/dev/null 2>&1
