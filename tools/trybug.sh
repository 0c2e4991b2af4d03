#!/bin/bash
# trybug.sh ID...: builds, tests and checks /repo with the change, in a private copy (mount namespace) of /repo and /verif
# NOTEST=1: skip the tests; PROPS="P01 P02": run these checks instead of the one of its property
cd "$(dirname "$0")/.."
one() {
    id=$1; p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"); w=/tmp/tb.$id
    rm -rf "/tmp/tb.$id"; mkdir -p $w && cp -a "${BUG_REPO:-/repo}" $w/repo && mkdir $w/verif && cp -a bin sim tools KNOWN_FINDINGS properties.jsonl MANIFEST.json seeded $w/verif/ && git -C $w/repo checkout -q -- . && git -C $w/repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; rm -rf "/tmp/tb.$id"; return; }
    PROPS="${PROPS-$p}" NOTEST=$NOTEST VERIF_SEED=1 unshare -Urm bash -c '
        id=$1; w=$2; mount --bind $w/repo /repo && mount --bind $w/verif /verif && mkdir -p $w/tmp && cd /verif || exit 2
        t=untested
        if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $w/t.json >$w/t.log 2>&1; t=$(python3 -c "
import json; r=json.load(open(\"$w/t.json\")); b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"])
print(\"tests pass\" if b<=set(r[\"passed\"]) else \"TESTS FAIL: \"+\", \".join(sorted(b-set(r[\"passed\"]))[:3]))"); fi
        [ -n "$PROPS" ] || echo "$id: $t"; for q in $PROPS; do
            s=$(date +%s); timeout 900 bin/check.py $q >$w/$q.log 2>&1; rc=$?
            echo "$id: $t; $q rc=$rc $(( $(date +%s) - s )) s: $(grep -m1 -E VIOLATION $w/$q.log | cut -c1-60) $(grep -m1 -A1 -E VIOLATION $w/$q.log | tail -1 | cut -c1-150)"
            [ $rc = 1 ] || tail -3 $w/$q.log
        done' bash $id $w
    rm -rf "/tmp/tb.$id"
}
for id in "$@"; do one $id; done
