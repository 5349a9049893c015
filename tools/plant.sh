#!/bin/bash
# tools/plant.sh <id>...: tries planted bugs in a scratch copy of /repo that is
# mounted in its place in a mount namespace of its own (NOTEST=1: no tests,
# NOCHECK=1: no check, TIER=thorough, PROPS="C01 C02": other checks than its own)
if [ -z "$IN_NS" ]; then
    S=$(mktemp -d /tmp/plant-XXXXXX)
    cp -a /repo/. "$S"
    IN_NS=1 S=$S VERIF_WORK=${VERIF_WORK:-/tmp/plant-work} unshare -m bash "$0" "$@"
    rm -rf "$S"
    exit
fi
mount --bind "$S" /repo
V=$(dirname "$(dirname "$(realpath "$0")")")
for id in "$@"; do
    d=$V/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo checkout -q -- .
    D=$(mktemp -d); cp "$d"/* "$D"; rm -f "$D"/*.diff "$D"/meta.json
    bash /opt/vp/build.sh > /dev/null 2>&1 || echo "$id: clean build fails"
    (cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/demo.$$ 2>&1) && r=0 || r=$?
    [ $r = 0 ] || { echo "$id: demo FAILS on the clean tree ($r)"; tail -5 /tmp/demo.$$; }
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/build.sh > /tmp/build.$$ 2>&1 || { echo "$id: does not build"; grep -m3 error /tmp/build.$$; }
        bash /opt/vp/test.sh /tmp/res.$$ > /dev/null 2>&1
        python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('stable') or b.get('passed') or b.get('tests') or b
r=json.load(open('/tmp/res.$$'))
names=[x if isinstance(x,str) else x.get('name') for x in b]
miss=[x for x in names if x not in set(r['passed'])]
print('$id: tests', len(r['passed']), 'passed; missing:', miss[:5])
P
    fi
    (cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/demo.$$ 2>&1) && r=0 || r=$?
    [ $r != 0 ] && echo "$id: demo fails with the patch ($r), good: $(tail -1 /tmp/demo.$$ | cut -c1-150)" || echo "$id: demo PASSES with the patch"
    rm -rf "$D"
    if [ -z "$NOCHECK" ]; then
        for p in ${PROPS:-$prop}; do
            python3 "$V/lib/check.py" "$p" --tier "${TIER:-quick}" > /tmp/chk.$$ 2>&1; r=$?
            echo "$id: check $p exits $r $(grep -A1 -m1 '^VIOLATION' /tmp/chk.$$ | tr '\n' ' ' | cut -c1-400)"
            [ $r = 1 ] || tail -3 /tmp/chk.$$
        done
    fi
    git -C /repo checkout -q -- .
done
