#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted bug in a private copy of /repo and /verif (mount namespace), print verdicts
ID=$1; R=/tmp/st_$ID; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
rm -rf "$R"; mkdir -p "$R"; cp -a /repo "$R/repo"
mkdir "$R/verif"; (cd /verif && tar cf - --exclude=.work --exclude=.git --exclude=seeded --exclude=evidence .) | tar xf - -C "$R/verif"
cp -a /verif/seeded/$ID "$R/seed"
export ID P R NT=$2
unshare -Urm bash -c '
mount --bind $R/repo /repo && mount --bind $R/verif /verif || exit 9
cd /repo && git checkout -q -- . 
bash $R/seed/demo.sh >$R/demo0.log 2>&1; d0=$?
git apply $R/seed/patch.diff || { echo "SEED $ID: patch does not apply"; exit 1; }
t=skipped
if [ -z "$NT" ]; then
 bash /opt/vp/test.sh $R/t.json >$R/test.log 2>&1
 t=$(python3 -c "
import json;b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);p=set(json.load(open(\"$R/t.json\"))[\"passed\"]);m=b-p
print(\"ok\" if not m else \"FAIL:\"+\",\".join(sorted(m)))")
fi
bash $R/seed/demo.sh >$R/demo1.log 2>&1; d1=$?
s=$(date +%s); VERIF_SEED=1 /verif/bin/check.sh $P quick >$R/check.log 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$P" $R/check.log)
echo "SEED $ID property=$P tests=$t demo_clean=$d0 demo_bug=$d1 check=$c violations=$v secs=$(( $(date +%s) - s ))"
'
[ -n "$KEEP" ] || rm -rf "$R"
