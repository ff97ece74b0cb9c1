#!/bin/bash
# seedcheck.sh ID: confirms a planted bug in a scratch copy: applies, builds,
# passes the stable tests, demo passes without and fails with it.
set -u
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seedwt.XXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$d" "$w/s"; rm -f "$w"/s/patch.diff "$w"/s/meta.json
cd "$w/repo" || exit 1
bash "$w/s/demo.sh" >"$w/o1" 2>&1 || { echo "$id: demo fails on the clean tree"; tail -5 "$w/o1"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash "$w/s/demo.sh" >"$w/o2" 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
echo "$id: demo: $(tail -1 "$w/o2" | cut -c1-200)"
sed "s#/repo\b#$w/repo#g" /opt/vp/build.sh > "$w/build.sh"
bash "$w/build.sh" >"$w/b" 2>&1 || { echo "$id: build fails"; tail -3 "$w/b"; exit 1; }
grep -q /repo /opt/vp/test.sh && sed "s#/repo\b#$w/repo#g" /opt/vp/test.sh > "$w/test.sh"
bash "$w/test.sh" "$w/t.json" >/dev/null 2>&1
python3 - "$w/t.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print(sys.argv[2], "stable tests:", "ok" if not m else "FAIL %s"%m[:4]); sys.exit(1 if m else 0)
P
