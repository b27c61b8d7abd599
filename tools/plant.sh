#!/bin/bash
# tools/plant.sh NAME [save]: confirms one planted bug. With "save", first stores the
# current uncommitted change of /repo as its patch. Leaves /repo as committed.
n=$1; d=/verif/seeded/$n; cd /repo || exit 1
if [ "$2" = save ]; then git diff > "$d/patch.diff"; git checkout -q -- .; fi
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
id=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
demo() { local t; t=$(mktemp -d); cp "$d"/* "$t"/; rm -f "$t"/*.diff "$t"/meta.json; timeout 300 bash "$t/demo.sh" >/tmp/demo.out 2>&1; local rc=$?; /bin/rm -r "$t"; return $rc; }
demo; c=$?; [ $c = 0 ] || { echo "$n: demo fails on the clean tree ($c)"; tail -20 /tmp/demo.out; exit 1; }
git apply "$d/patch.diff" || exit 1
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$n: does not build"; tail -20 /tmp/build.out; exit 1; }
demo; c=$?; [ $c != 0 ] || { echo "$n: demo passes with the patch"; exit 1; }
tail -3 /tmp/demo.out
bash /opt/vp/test.sh /tmp/plant.json >/tmp/test.out 2>&1
python3 -c "
import json
o=json.load(open('/tmp/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print('$n: stable tests missing:',m)"
cd /verif; VERIF_SEED=1 timeout 900 ./run.sh "$id" quick > /tmp/plant.out 2>&1; rc=$?
echo "$n: $id rc=$rc"; grep -m3 VIOLATION /tmp/plant.out | cut -c1-300
