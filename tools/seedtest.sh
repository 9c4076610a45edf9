#!/bin/bash
# usage: seedtest.sh SEED... : tries planted bugs on a private copy of /repo
# (bind-mounted over /repo in a mount namespace of its own).
if [ -z "$SEED_NS" ]; then
    d=$(mktemp -d /tmp/seedXXXXXX)
    cp -a /repo "$d/repo"
    cp -a /verif "$d/verif"
    SEED_NS=$d unshare -Urm bash "$0" "$@"
    rc=$?
    rm -rf "$d"
    exit $rc
fi
mount --bind "$SEED_NS/repo" /repo
mkdir -p "$SEED_NS/verif/evidence"
cp -a ${SEEDS:-/verif/seeded} "$SEED_NS/seeded"
mount --bind "$SEED_NS/verif" /verif
cd /repo
git checkout -q -- .
for s in "$@"; do
    d=$SEED_NS/seeded/$s
    mkdir -p "$SEED_NS/demo"
    cp "$d"/* "$SEED_NS/demo/"
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    r="$s $p:"
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && timeout 300 bash "$SEED_NS/demo/demo.sh" >"$SEED_NS/d0" 2>&1) && r="$r demo-clean ok;" || { r="$r DEMO FAILS ON CLEAN;"; cat "$SEED_NS/d0"; }
    if ! git apply "$d/patch.diff"; then echo "$r PATCH DOES NOT APPLY"; continue; fi
    bash /opt/vp/test.sh "$SEED_NS/o.json" >/dev/null 2>&1
    r="$r $(python3 -c "
import json
o=json.load(open('$SEED_NS/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('tests ok;' if not m else 'TESTS FAIL %s;'%m)")"
    (cd /repo && timeout 300 bash "$SEED_NS/demo/demo.sh" >"$SEED_NS/d1" 2>&1) && r="$r DEMO PASSES WITH BUG;" || r="$r demo-bug ok;"
    if [ -z "$NOCHECK" ]; then
        (cd /verif && timeout 900 python3 run.py ${CHECK:-$p} >"$SEED_NS/c.log" 2>&1)
        rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=${CHECK:-$p}" "$SEED_NS/c.log"; then r="$r CAUGHT $(grep -A1 '^VIOLATION' "$SEED_NS/c.log" | tail -1 | cut -c1-100)"; else r="$r MISSED rc=$rc"; fi
    fi
    echo "$r"
    git checkout -q -- .
    rm -rf "$SEED_NS/demo"
done
bash /opt/vp/build.sh >/dev/null 2>&1
