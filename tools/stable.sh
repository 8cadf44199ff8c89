#!/bin/bash
# runs the repository's tests and reports stable tests that do not pass
out=$(mktemp)
bash /opt/vp/test.sh $out >/tmp/stable.log 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passing') or b.get('tests')
p=set(r.get('passed',[]))
m=[t for t in st if t not in p]
print(len(st),'stable;',len(m),'not passing', m[:20])
P
rm -f $out
