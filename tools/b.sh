#!/bin/bash
# developer helper: weave + verify a list of templates
cd /verif/tools/weave && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/weave cargo build --offline --release 2>&1 | grep -A5 -E "^error"
cd /verif/contracts; mkdir -p /tmp/w
/verif/target/weave/release/weave --repo ${REPO:-/repo} --expanded /tmp/w/expanded.rs --fixture /tmp/w/fx.rs --out /tmp/w/a.rs --map /tmp/w/a.json "$@" 99_tail.vrs || exit 1
python3 - <<'P'
import json
d=json.load(open('/tmp/w/a.json'))
for f in d['fns']:
    if f['status']!='woven': print(f['status'],f['name'],f['reason'])
print('fatal',d['fatal'])
P
cd /tmp/w && timeout ${T:-300} verus a.rs --triggers-mode silent --multiple-errors 10 --expand-errors $VF 2>&1 | head -${N:-80}
