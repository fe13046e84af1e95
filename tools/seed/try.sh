#!/bin/bash
# try.sh ID : with /repo clean, make sure demo passes, apply the patch, build, run the stable tests, the demo (must fail) and the property's check.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
sh $d/demo.sh >/tmp/demo0.log 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/demo0.log; exit 1; }
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "$id: BUILD FAILS"; tail /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x,k):
    return set(x[k]) if isinstance(x.get(k),list) else set()
st=b.get('passed') or b.get('stable') or b.get('tests') or []
miss=[n for n in st if n not in set(t.get('passed',[]))]
print('baseline',len(st),'missing',miss[:5])
P
if sh $d/demo.sh >/tmp/demo1.log 2>&1; then echo "$id: DEMO PASSES WITH THE PATCH"; fi
cd /verif; for p in $prop $2; do timeout 900 ./run_check $p >/tmp/chk.log 2>&1; echo "$id: check $p exit $? :: $(grep VIOLATION /tmp/chk.log | head -3)"; done
