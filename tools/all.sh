#!/bin/bash
# all.sh [tier] [IDs...]: run every registered check, one line each
cd /verif; tier=${1:-quick}; shift
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}
for i in $ids; do
  out=$(./run.sh $i $tier 2>&1); rc=$?
  echo "$i rc=$rc $(tail -1 <<<"$out") $(grep -m1 -A1 VIOLATION <<<"$out")"
  python3 - $i <<'P'
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
n=[x for x in d['coverage'].get('notes',[]) or [] if 'not reproduced' in x]
if n: print("   UNREPRODUCED", len(n), n[0][:300])
P
done
