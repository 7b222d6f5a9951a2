#!/bin/bash
# seedtest.sh ID [CHECK...]: confirms a planted bug (demo passes without, fails with it; tests pass) and runs the checks on it.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/scratch/seed; rm -rf /tmp/scratch/seed; mkdir -p $W
cp $S/demo.sh $W/; for f in $S/*; do case $f in *.diff|*.patch|*/meta.json|*/demo.sh) ;; *) cp -r $f $W/;; esac; done
cd /repo
git apply --check $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$CHECKONLY" ]; then
timeout 300 bash $W/demo.sh >$W/clean.log 2>&1; r0=$?
git apply $S/patch.diff
bash /opt/vp/build.sh >$W/build.log 2>&1; rb=$?
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
rt=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$W/out.json'))
ps=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else {k for k,v in o.items() if v in ('pass','passed',True)}
print(len([t for t in b if t not in ps]))
P
)
timeout 300 bash $W/demo.sh >$W/bug.log 2>&1; r1=$?
else git apply $S/patch.diff; fi
cd /verif
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
out=$(python3 check.py ${@:-$P} 2>&1)
git -C /repo checkout -q -- .
echo "$id [$P]: clean=$r0 build=$rb testfail=$rt bug=$r1 caught=$(echo "$out" | grep -c '^VIOLATION') undecided=$(echo "$out" | grep -c '  undecided')"
echo "$out" | grep -A1 "^  [a-z]*\." | cut -c1-${WIDTH:-260} | head -${LINES_MAX:-4}
