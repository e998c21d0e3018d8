#!/bin/bash
# usage: seedcheck.sh [-n] ID...   for each planted bug: applies, builds, passes the tests, demo fails with it and passes without it,
# and (unless -n) the property's quick check reports it. Leaves /repo as it was.
run=1; [ "$1" = -n ] && { run=0; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    d=$V/seeded/$id
    prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
    git checkout -q -- .
    rm -rf /tmp/pl/demo; mkdir -p /tmp/pl/demo; cp -r "$d"/* /tmp/pl/demo/; rm -f /tmp/pl/demo/*.diff /tmp/pl/demo/meta.json
    bash /opt/vp/build.sh > /tmp/pl/b.log 2>&1 || { echo "$id: clean build failed"; continue; }
    timeout 300 bash /tmp/pl/demo/demo.sh > /tmp/pl/d0.log 2>&1; d0=$?
    git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    if ! bash /opt/vp/test.sh /tmp/pl/res.json > /tmp/pl/t.log 2>&1 && [ ! -s /tmp/pl/res.json ]; then echo "$id: test run failed"; fi
    miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/pl/res.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('tests') or b.get('stable')
p=set(r['passed']); m=[t for t in base if t not in p]
print(len(m), ' '.join(m[:3]))
P
)
    timeout 300 bash /tmp/pl/demo/demo.sh > /tmp/pl/d1.log 2>&1; d1=$?
    s="$id [$prop] demo clean=$d0 planted=$d1 tests missing: $miss"
    if [ $run = 1 ]; then
        out=$(cd $V && timeout 900 bin/check $prop 2>/tmp/pl/c.err); rc=$?
        s="$s | check rc=$rc $(echo "$out" | grep -m1 violates | cut -c1-200)"
    fi
    echo "$s"
    git checkout -q -- .
done
git checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
