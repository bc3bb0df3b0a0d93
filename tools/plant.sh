#!/bin/bash
# tools/plant.sh ID [nocheck|CHECKS...]: confirms one planted bug of seeded/ID in a private copy of /repo, then runs its check there.
set -u
id=$1; shift
V=/verif/seeded/$id
W=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/demo"; cp -a "$V"/. "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
checks=${*:-$prop}
export W V id prop checks
unshare -m bash <<'IN'
mount --bind "$W/repo" /repo
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh >"$W/b0.log" 2>&1 || { echo "$id: clean build failed"; tail -3 "$W/b0.log"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d0.log" 2>&1; d0=$?
git apply "$V/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/test.sh "$W/t.json" >"$W/t.log" 2>&1
t=$(python3 -c "
import json
r=json.load(open('$W/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
print('missing', sorted(set(b)-set(r['passed'])), 'failed', r['failed'])")
timeout 300 bash "$W/demo/demo.sh" >"$W/d1.log" 2>&1; d1=$?
echo "$id: demo clean=$d0 patched=$d1 tests: $t"
[ $d0 != 0 ] && tail -5 "$W/d0.log"
tail -2 "$W/d1.log"
[ "$checks" = nocheck ] && exit
for c in $checks; do
  s=$(date +%s); timeout 900 python3 /verif/check.py $c >"$W/c.log" 2>&1; r=$?
  echo "$id: check $c exit=$r in $(( $(date +%s)-s )) s: $(grep -a VIOLATION "$W/c.log" | head -2)"
  [ $r = 2 ] && tail -5 "$W/c.log"
done
IN
