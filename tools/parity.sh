#!/bin/bash
# parity.sh [DIR]: do the detrand-dependent test names match the baseline?
cd "${1:-/repo}" && . /opt/vp/env.sh
P=$(mktemp); go test -vet=off -count=1 -v ./subscribe -run TestOriginInSubscribeRequest -json > $P
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
names={l and json.loads(l).get('Test') for l in open('$P')}
def flat(x):
    if isinstance(x,str): yield x
    elif isinstance(x,dict):
        for k,v in x.items(): yield k; yield from flat(v)
    elif isinstance(x,list):
        for v in x: yield from flat(v)
base={x.split('gnmi/subscribe/')[1] for x in flat(b) if 'TestOriginInSubscribeRequest/' in x}
names={n for n in names if n and 'TestOriginInSubscribeRequest/' in n}
import os; os.remove("$P")
print("PARITY OK" if base<=names else "PARITY BAD")
P
