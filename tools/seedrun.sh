#!/bin/bash
# confirms a planted bug: applies, builds, passes the stable tests, demo fails with it and passes without
for id in "$@"; do
  p=/verif/seeded/$id
  git -C /repo apply "$p/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
  n=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];d=json.load(open('/tmp/st.json'))['passed'];print(len(set(b)-set(d)))")
  (cd /repo && bash "$p/demo.sh" >/tmp/sd.log 2>&1); d1=$?
  if [ -n "$CHECKS" ]; then
    pr=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
    (cd /verif && python3-vt check.py $pr quick) >/tmp/sc.log 2>&1; c=$?
  else c=-; fi
  git -C /repo checkout -q -- .
  if [ -n "$BASE" ]; then bash /opt/vp/build.sh >/tmp/sb.log 2>&1; (cd /repo && bash "$p/demo.sh" >/tmp/sd0.log 2>&1); d0=$?; else d0=-; fi
  echo "$id build=$b missing=$n demo_with=$d1 demo_without=$d0 check=$c $([ -n "$CHECKS" ] && grep -h VIOLATION /tmp/sc.log) [$(head -1 /tmp/sd.log)]"
done
bash /opt/vp/build.sh >/tmp/sb.log 2>&1
