n=$1; id=$2; b=$3; shift 3; checks=${*:-$id}
d=/verif/seeded/$n; cd /repo; git checkout -q -- .
demo() { local t; t=$(mktemp -d); cp "$d"/* "$t"/; rm -f "$t"/*.diff "$t"/meta.json; timeout 300 bash "$t/demo.sh" >$b/demo.out 2>&1; local rc=$?; /bin/rm -r "$t"; return $rc; }
demo; c=$?; [ $c = 0 ] || { echo "$n: demo fails on the clean tree ($c)"; tail -20 $b/demo.out; exit 1; }
git apply "$d/patch.diff" || { echo "$n: does not apply"; exit 1; }
export DENO_DIR=/opt/deno/cache
/opt/deno/deno check --cached-only --import-map /opt/mtkruto-deps/import_map.json mod.ts >$b/tc.out 2>&1 || { echo "$n: type errors"; tail -5 $b/tc.out; }
bash /opt/vp/build.sh >$b/build.out 2>&1 || { echo "$n: does not build"; tail -20 $b/build.out; exit 1; }
demo; c=$?; [ $c != 0 ] || { echo "$n: demo passes with the patch"; exit 1; }
echo "$n demo: $(tail -1 $b/demo.out)"
bash /opt/vp/test.sh $b/plant.json >$b/test.out 2>&1
python3 -c "
import json
o=json.load(open('$b/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print('$n: stable tests missing:',m)"
cd /verif
for i in $checks; do VERIF_SEED=1 timeout 900 ./run.sh "$i" quick > $b/plant.out 2>&1; rc=$?
echo "$n: $i rc=$rc"; grep -m3 -A1 VIOLATION $b/plant.out | cut -c1-300; done
