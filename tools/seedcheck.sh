#!/bin/bash
# tools/seedcheck.sh ID...: confirms planted bugs in a scratch copy of /repo (applies, builds, stable tests pass, demo 0 -> nonzero)
# and then runs the property's quick check against /repo with the patch applied (undone afterwards).
for id in "$@"; do
  d=/verif/seeded/$id
  [ -f $d/patch.diff ] || { echo "$id: no patch"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && git status --short | grep -v '^??' && { echo "repo dirty"; exit 2; }
  bash /opt/vp/build.sh >/tmp/sc_b.log 2>&1
  bash $d/demo.sh >/tmp/sc_d0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/sc_b.log 2>&1; then
    bash /opt/vp/test.sh /tmp/sc_t.json >/tmp/sc_t.log 2>&1
    t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sc_t.json'))
def passed(x):
    if isinstance(x,dict) and 'passed' in x: return set(x['passed'])
    return set()
st=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print(len(st-passed(o)))
PY
)
    bash $d/demo.sh >/tmp/sc_d1.log 2>&1; r1=$?
    (cd /verif && python3 checks/run.py $prop quick >/tmp/sc_c.log 2>&1); rc=$?
  else t=BUILD-FAIL; r1=-; rc=-; fi
  git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/sc_b2.log 2>&1
  echo "$id property=$prop lost_tests=$t demo_clean=$r0 demo_bug=$r1 check=$rc $(grep -m1 key= /tmp/sc_c.log)"
done
