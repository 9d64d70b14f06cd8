#!/bin/bash
# developer helper: most expensive functions of /tmp/w/a.rs
cd /tmp/w && verus a.rs --triggers-mode silent --output-json --time-expanded 2>/dev/null > o.json
python3 - <<'P'
import json
d=json.load(open('/tmp/w/o.json'))
L=[]
def walk(x):
    if isinstance(x,dict):
        if 'function' in x and 'rlimit' in x: L.append((x['rlimit'],x.get('time'),x['function']))
        for v in x.values(): walk(v)
    elif isinstance(x,list):
        for v in x: walk(v)
walk(d)
for r,t,f in sorted(L,reverse=True)[:14]: print(r,t,f)
print(d['times-ms'].get('total'))
P
