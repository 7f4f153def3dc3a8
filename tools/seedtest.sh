#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted change in a private copy mounted over /repo:
# demo passes before, fails after, stable tests pass with it; then say which checks catch it
S=/verif/seeded/$1; W=$(mktemp -d /tmp/seedw.XXXX); cp -a /repo $W/repo; mkdir $W/d; for f in $S/*; do case $f in *.diff|*meta.json) ;; *) cp -r $f $W/d/;; esac; done
cp $S/patch.diff $W/
cat > $W/run.sh <<X
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo BUILD0 FAILED
timeout 300 bash $W/d/demo.sh >$W/d0.log 2>&1; echo "demo clean rc=\$?"
git apply $W/patch.diff || echo APPLY FAILED
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo BUILD FAILED; tail -5 $W/b1.log; }
timeout 300 bash $W/d/demo.sh >$W/d1.log 2>&1; echo "demo patched rc=\$?"; tail -3 $W/d1.log
[ "$2" = notests ] || { bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; tail -1 $W/t.log; }
X
unshare -Urmi bash $W/run.sh
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${3:-$p}; do SA_REPO=$W/repo python3 /verif/check.py $c 2>&1 | grep -E '^  FINDING|VIOLATION|BROKEN' | cut -c1-220 | head -4; done
[ -n "$KEEP" ] || rm -rf $W
