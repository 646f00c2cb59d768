#!/bin/bash
# usage: seed.sh ID [check]: confirm a planted change in a scratch copy bound over /repo in a private mount namespace
# (builds, keeps the stable tests, demo passes without and fails with it); with "check" also runs the property's quick check
ID=$1; D=/verif/seeded/$ID
S=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $S/repo; cp -a $D $S/demo
cat > $S/go.sh <<G
mount --bind $S/repo /repo || exit 9
cd /repo
if [ "$NOTEST" != 1 ]; then
  bash /opt/vp/build.sh >$S/b0.log 2>&1
  timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1; echo "$ID demo unchanged: \$? (want 0)"
fi
git apply $S/demo/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
if [ "$NOTEST" != 1 ]; then
  bash /opt/vp/build.sh >$S/b1.log 2>&1 || echo "$ID BUILD FAILED"
  timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1; echo "$ID demo patched: \$? (want nonzero)"; tail -1 $S/d1.log | cut -c1-200
  bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1
  python3 - <<P
import json
o=json.load(open('$S/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def passed(d):
    if 'passed' in d: return set(d['passed'])
    return {k for k,v in d.items() if v in ('passed',True,'pass')}
bs=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print('$ID missing tests:',sorted(bs-passed(o)))
P
fi
if [ "$2" = check ]; then
  M=\$(python3 -c "import json;print(json.load(open('$S/demo/meta.json'))['property'].lower())")
  cd /verif && PV_VERBOSE=1 timeout 900 /opt/venv/bin/python -B -m vlib.runner \${M} quick >$S/c.log 2>&1; echo "$ID check \$M exit \$?"; grep -m1 VIOLATION $S/c.log | cut -c1-220
fi
G
unshare -m bash $S/go.sh
case "$S" in /tmp/seed.*) find "$S" -delete;; esac
