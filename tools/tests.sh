#!/bin/bash
# runs the repository's build and stable tests, prints what differs from the baseline
O=$(mktemp)
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; }
bash /opt/vp/test.sh $O >/tmp/test.log 2>&1
python3 - $O <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def passed(d):
    if 'passed' in d: return set(d['passed'])
    return {k for k,v in d.items() if v in ('passed',True,'pass')}
bs=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print(len(passed(o)),'passed; missing from baseline:',sorted(bs-passed(o)))
P
cd /repo; git status --short
