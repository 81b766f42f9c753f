#!/bin/bash
# seed.sh ID [nofull]: confirm the planted bug seeded/ID: demo passes without
# it; with it /repo builds, the stable tests pass, the demo fails; then runs
# the check of its property.  Undoes the change afterwards.
id=$1; d=/verif/seeded/$id; cd /repo
git diff --quiet || { echo "repo dirty"; exit 9; }
run() { timeout 300 bash "$d/demo.sh" >/tmp/seed.out 2>&1; }
[ "$2" = nofull ] || bash /opt/vp/build.sh >/dev/null 2>&1
run; a=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
run; b=$?
t=skipped
if [ "$2" != nofull ]; then
  if bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in ('pass','passed',True)])
    return set()
m=names(b)-names(r)
print("tests-ok(%d)"%len(names(b)) if not m else "TESTS-FAIL %s"%sorted(m)[:3])
P
)
  else t=BUILD-FAIL; fi
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
c=-; 
if [ -f /verif/checks/$(echo $p|tr A-Z a-z).py ]; then (cd /verif; timeout 900 python3 check.py $p >/tmp/seed.chk 2>&1); c=$?; fi
echo "$id [$p] demo clean=$a bug=$b $t check=$c $(grep -v '^ANALYSIS\|^VIOL' /tmp/seed.chk 2>/dev/null| head -1 | cut -c1-140)"
