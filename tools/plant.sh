#!/bin/bash
# tools/plant.sh ID [notest]: confirms the planted bug seeded/ID in a private mount
# namespace (overlays over /repo and the build folder, so nothing outside is
# touched): builds, stable tests, demo before and after, then the property's quick check.
ID=$1; NOTEST=${2:-}
if [ -z "${PLANT_NS:-}" ]; then exec env PLANT_NS=1 unshare -m "$0" "$@"; fi
W=/tmp/plant_$ID.$$; mkdir -p $W/{ru,rw,bu,bw,demo}
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/ru,workdir=$W/rw /repo || exit 9
mount -t overlay overlay -o lowerdir=/opt/nisaba-build,upperdir=$W/bu,workdir=$W/bw /opt/nisaba-build || exit 9
D=/verif/seeded/$ID
cp -r $D/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cd /repo
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "$ID demo unchanged: $?"
git apply $D/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$W/build.log 2>&1; echo "$ID build: $?"
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "$ID demo patched: $?  $(tail -1 $W/demo1.log)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def s(d):
  for k in ('passed','pass','stable'):
    if k in d: return set(d[k])
  return set(k for k,v in d.items() if v in ('pass','passed'))
m=s(b)-s(o)
print('tests: missing', len(m), sorted(m)[:5], 'of', len(s(b)))
P
fi
cd /verif; S=$(date +%s); mkdir -p $W/ev
mount --bind $W/ev /verif/evidence
VERIF_SEED=1 timeout 900 ./check.py $P quick >$W/check.log 2>&1; R=$?
echo "$ID check $P: rc=$R $(($(date +%s)-S))s  $(grep -m1 '^VIOLATION' $W/check.log)"
cp $W/check.log /tmp/plant_$ID.check.log
cp $W/demo0.log /tmp/plant_$ID.demo0.log; cp $W/demo1.log /tmp/plant_$ID.demo1.log
cd /; umount /verif/evidence; umount /repo; umount /opt/nisaba-build; rm -rf "$W"
