#!/bin/bash
# Runs the check of each seeded change's property against it. usage: seedrun.sh [ID...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  python3 - "$d" "$p" $rc "$out" <<'P'
import json,sys,os
f='/verif/tools/caught.json'; c=json.load(open(f)) if os.path.exists(f) else {}
d,p,rc,o=sys.argv[1:5]
v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
c[d]='%s: %s'%(p,'missed' if rc!='1' or not v else 'caught, no failing input found' if 'no-failing' in v[0] else 'caught with a failing input')
json.dump(c,open(f,'w'),indent=0,sort_keys=True)
P
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
done
