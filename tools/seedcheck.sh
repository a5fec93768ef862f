#!/bin/bash
# seedcheck.sh ID [CHECK...]: is the planted bug valid, and what do the checks say?  (modifies /repo's working tree meanwhile)
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
t=$(mktemp -d); cp -a "$d/." "$t/"; rm -f "$t"/*.diff "$t"/meta.json
[ -n "$NODEMO" ] || { (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 "$t/demo.sh" > $t/out1 2>&1); echo "$id unchanged demo rc=$? (want 0)"; }
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
(cd /repo && bash /opt/vp/build.sh > $t/build 2>&1) || { echo "$id does not build"; tail -20 $t/build; exit 2; }
(cd /repo && timeout 300 "$t/demo.sh" > $t/out2 2>&1); echo "$id patched demo rc=$? (want non-zero): $(tail -c 300 $t/out2)"
bash /opt/vp/test.sh $t/r.json >/dev/null 2>&1
python3 - $t/r.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1]))
p=r.get('passed',r)
bad=[x for x in b if x not in p]
print('stable tests broken:',bad)
P
fi
for c in ${@:-$prop}; do
  (cd /verif && VERIF_SEED=1 timeout 900 python3 check.py $c quick > $t/c 2>&1); echo "$id check $c rc=$? $(tail -c 400 $t/c | tail -3)"
done
