#!/bin/bash
# seedcheck.sh ID [fast]: confirm a planted change (builds, stable tests, demo both ways) and whether
# the check of its property catches it. mid: skip build and tests. fast: skip the clean demo, too.
V=/verif; S=$V/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export DEMO_TARGET_DIR=/tmp/demo-target
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
find pallets polimec-common -name '*.rs' | xargs touch
if [ "$2" != fast ]; then find pallets polimec-common -name '*.rs' -newer /tmp/demo-stamp 2>/dev/null | head -0; bash "$S/demo.sh" >/tmp/sc.demo0 2>&1; d0=$?; else d0=-; fi
git apply "$S/patch.diff" || exit 2
find pallets polimec-common -name '*.rs' | xargs touch
touch /repo/pallets/*/src/lib.rs; bash "$S/demo.sh" >/tmp/sc.demo1 2>&1; d1=$?
if [ -z "$2" ]; then
	bash /opt/vp/build.sh >/tmp/sc.build 2>&1; b=$?
	bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.test 2>&1
	t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sc.json'))
print(sorted(k for k in r if k!='x')[:4], {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
)
fi
o=$(VERIF_SEED=1 bash $V/run.sh $P quick 2>&1); c=$?
echo "$1 $P demo-clean=$d0 demo-patched=$d1 build=$b tests=$t check=$c $(echo "$o"|grep -c VIOLATION)"
echo "$o" | grep -E "VIOLATION|deviat" | head -3; grep -E -A4 "^error|panicked" /tmp/sc.demo1 | head -12 | cut -c1-200
[ "$d0" = 0 ] || [ "$d0" = - ] || { echo "CLEAN:"; grep -E -A4 "^error|panicked" /tmp/sc.demo0 | head -12 | cut -c1-200; }
cd /repo; git checkout -q -- .; find pallets polimec-common -name '*.rs' | xargs touch
