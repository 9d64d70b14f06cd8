#!/bin/bash
# developer helper: which checks catch which seeded change (in the copy of /repo at VERIF_REPO)
cd ${VDIR:-/verif}
R=${VERIF_REPO:?a scratch copy of /repo}; export VERIF_REPO
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $R checkout -q -- .
  git -C $R apply $PWD/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); o=$(python3 check.py $p quick 2>&1); rc=$?
  git -C $R checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep VIOLATION)"
  echo "$o" | grep -E "UNDECIDED" | cut -c1-200
  python3 -c "
import json; c=json.load(open('evidence/$p.json'))['coverage']; print('    failed:', [x[:90] for x in c['failed_obligations'][:4]])"
  f=${VERIF_T:-target}/replay/$p.txt; [ -f $f ] && grep -m1 "^what" $f | cut -c1-200 | sed 's/^/    /'
done
