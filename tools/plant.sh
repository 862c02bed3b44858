#!/bin/bash
# plant.sh ID [quick|demo] [PROP...] : confirm seeded/ID in a private copy of /repo (bind-mounted over /repo in a
# mount namespace of its own) and run the check of its property (or of PROP...) against it.
#   demo: only build and demo; nosuite: skip the test suite
ID=$1; MODE=${2:-full}; shift; shift
V=/verif; T=/tmp/plant/$ID
rm -rf "/tmp/plant/$ID"; mkdir -p $T
cp -a /repo $T/repo; cp -a /opt/vp $T/vp; mkdir $T/verif
(cd $V && tar c --exclude=.build --exclude=.git --exclude=seeded --exclude=replays . ) | tar x -C $T/verif
cp -a $V/seeded/$ID $T/seed
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$T/seed/meta.json'))['property'])")}
export T MODE PROPS ID
unshare -rm bash -c '
mount --bind $T/repo /repo && mount --bind $T/vp /opt/vp && mount --bind $T/verif /verif || exit 9
cd /repo
out="$ID:"
bash /opt/vp/build.sh >$T/build0.log 2>&1 || out="$out BUILD0-FAILED"
timeout 300 bash $T/seed/demo.sh >$T/demo0.log 2>&1; r0=$?
[ $r0 = 0 ] || out="$out DEMO-BASE=$r0!!"
git apply $T/seed/patch.diff || { echo "$out PATCH-FAILED"; exit 1; }
bash /opt/vp/build.sh >$T/build1.log 2>&1 || { echo "$out BUILD1-FAILED"; tail -5 $T/build1.log; exit 1; }
timeout 300 bash $T/seed/demo.sh >$T/demo1.log 2>&1; r1=$?
[ $r1 != 0 ] && out="$out demo-ok($r1)" || out="$out DEMO-NOT-FAILING!!"
if [ $MODE = full ]; then
 bash /opt/vp/test.sh $T/out.json >$T/test.log 2>&1
 out="$out $(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
o=json.load(open("$T/out.json"))
p=set(o.get("passed") or [k for k,v in o.items() if v=="passed"])
m=[t for t in b if t not in p]
print("tests-ok" if not m else "TESTS-FAIL!! %d %s"%(len(m),m[:4]))
P
)"
fi
if [ $MODE != demo ]; then
 for p in $PROPS; do
  s=$(date +%s)
  (cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3-vt run.py $p >$T/check_$p.log 2>&1); r=$?
  v=$(grep -c "^VIOLATION property=$p " $T/check_$p.log)
  [ $r = 1 -a $v -gt 0 ] && out="$out CAUGHT:$p($(( $(date +%s)-s ))s)" || out="$out missed:$p(rc=$r)"
 done
fi
echo "$out"
'
mkdir -p /tmp/plant/logs; for f in $T/*.log; do cp $f /tmp/plant/logs/$ID.$(basename $f); done; cp -r $T/verif/replays /tmp/plant/logs/$ID.replays 2>/dev/null
rm -rf "/tmp/plant/$ID"
