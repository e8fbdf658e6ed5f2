#!/bin/bash
# tools/tryseed.sh ID [norun]: confirm a planted change: demo ok before, builds, tests pass, demo fails, check reports.
D=/verif/seeded/$1; PID=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -n "$(git status --porcelain --untracked-files=no)" ] && { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo "base build fails"; exit 2; }
bash $D/demo.sh >/tmp/ts.demo0 2>&1; echo "demo unpatched rc=$? (want 0)"
git apply $D/patch.diff || exit 2
if bash /opt/vp/build.sh >/tmp/ts.build 2>&1; then
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
  python3 - <<'P'
import json
r=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(r); print("tests:", {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
  timeout 300 bash $D/demo.sh >/tmp/ts.demo1 2>&1; echo "demo patched rc=$? (want nonzero)"; tail -2 /tmp/ts.demo1
  [ "$2" = norun ] || { cd /verif; VERIF_SEED=${VERIF_SEED:-1} python3 check.py $PID ${3:-quick} > /tmp/ts.check 2>&1; echo "check $PID rc=$?"; grep -m3 VIOLATION /tmp/ts.check; }
else echo "PATCHED BUILD FAILS"; tail -5 /tmp/ts.build; fi
cd /repo; git -C /repo checkout -- .; bash /opt/vp/build.sh >/tmp/ts.build 2>&1; bash $D/demo.sh >/dev/null 2>&1; echo "demo restored rc=$?"
