#!/bin/bash
# tools/plant.sh ID [PROP...]: takes /repo's uncommitted change as the planted bug ID (its patch.diff), or,
# when there is none, the patch it already has; confirms it, runs the checks of PROP (default: its own) and undoes it.
set -u
V=/verif; id=$1; shift; S=$V/seeded/$id; mkdir -p "$S"
if ! git -C /repo diff --quiet; then git -C /repo diff >"$S/patch.diff"; git -C /repo checkout -q -- .; fi
demo() { (cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/plant-$id.$1.log 2>&1); echo $?; }
if [ -z "${NODEMO:-}" ]; then d0=$(demo clean); fi
git -C /repo apply "$S/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "${NODEMO:-}" ]; then
d1=$(demo bug)
echo "$id demo: clean $d0 (want 0), bug $d1 (want nonzero)"
fi
if [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/build.sh >/tmp/plant-$id.build.log 2>&1 || echo "$id BUILD FAILS"
    bash /opt/vp/test.sh /tmp/plant-$id.json >/tmp/plant-$id.test.log 2>&1
    python3 - /tmp/plant-$id.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
want=b['stable']
got=set(t.get('passed',t)) if isinstance(t,dict) else set(t)
want=set(want)
print('tests lost:', sorted(want-got))
PY
fi
for p in "${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"; do
    s=$(date +%s); $V/check $p quick >/tmp/plant-$id.$p.log 2>&1; r=$?
    echo "$id check $p: exit $r in $(( $(date +%s)-s )) s; $(grep -m1 -E '^run .*violates|^VIOLATION' /tmp/plant-$id.$p.log | cut -c1-200)"
done
