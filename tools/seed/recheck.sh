# recheck.sh ID CHECK...
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for c in "$@"; do (cd /verif; bash run.sh $c ${TIER:-quick} > /tmp/seed/out 2>&1; echo "$id $c rc=$?"; grep -m2 -A3 VIOLATION /tmp/seed/out | cut -c1-300; tail -1 /tmp/seed/out | cut -c1-200); done
git -C /repo checkout -q -- .
