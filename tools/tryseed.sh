#!/bin/bash
# tryseed.sh ID [check seconds]: demo on clean tree, then patch: build, tests, demo, check; then undo.
set -u
ID=$1; S=/verif/seeded/$ID; SECS=${2:-20}
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
W=$(mktemp -d /tmp/seeddemo.XXXXXX); cp "$S"/* "$W"/; rm -f "$W"/*.diff "$W"/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1; bash "$W/demo.sh"; echo "demo clean: $? (want 0)"
git apply "$S/patch.diff" || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; then echo "build ok"; else echo "BUILD FAILS"; tail -20 /tmp/seedbuild.log; fi
bash /opt/vp/test.sh /tmp/seedtests.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtests.json'))
def names(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k] if isinstance(d[k],list) else d[k].keys())
    return set()
print('tests missing:', sorted(names(b)-names(r))[:5], 'of', len(names(b)))
P
timeout 60 bash "$W/demo.sh" >/tmp/seeddemo.log 2>&1; echo "demo patched: $? (want nonzero)"; tail -3 /tmp/seeddemo.log
if [ "$SECS" != 0 ]; then
	export VERIF_BUILD=/tmp/seedbuild
	mkdir -p $VERIF_BUILD
	bash /verif/check.sh $P quick 2>&1 | tail -4; echo "check rc=${PIPESTATUS[0]}"
fi
rm -rf "$W"
