#!/bin/bash
# full.sh id [checks...]: in a private overlay of /repo, /opt/vp and /verif: apply, test suite, checks
id=$1; shift
o=/tmp/pbo/$id; rm -rf "/tmp/pbo/$id"; mkdir -p $o/{r,rw,v,vw,p,pw}
unshare -m bash -c '
id=$1; o=$2; shift 2
mount -t overlay overlay -o lowerdir=/repo,upperdir=$o/r,workdir=$o/rw /repo
mount -t overlay overlay -o lowerdir=/verif,upperdir=$o/v,workdir=$o/vw /verif
mount -t overlay overlay -o lowerdir=/opt/vp,upperdir=$o/p,workdir=$o/pw /opt/vp
cd /repo; git apply /verif/seeded/$id/patch.diff || { echo "$id APPLY"; exit; }
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >$o/build.log 2>&1 || { echo "$id BUILD FAILED"; tail -20 $o/build.log; exit; }
 bash /opt/vp/test.sh $o/t.json >$o/test.log 2>&1
 python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$o/t.json"))
bs=set(b.get("stable",b.get("passed",b.get("tests",[])))) if isinstance(b,dict) else set(b)
p=set(t["passed"]); miss=sorted(bs-p)
print("$id","tests: missing",len(miss),miss[:6])
P
fi
for c in "$@"; do
  (cd /verif && env VERIF_SEED=1 VERIF_TIER=quick sim/run.sh check $c >$o/$c.log 2>&1); rc=$?
  echo "$id $c rc=$rc $(grep -m1 VIOLATION $o/$c.log)"
done
' _ $id $o "$@"
[ -n "$KEEP" ] || rm -rf "/tmp/pbo/$id"
