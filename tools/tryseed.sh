#!/bin/bash
# tryseed.sh ID: build, test and demo with and without the seeded change
d=/verif/seeded/$1
bash /opt/vp/build.sh >/dev/null 2>&1 && (cd /repo && bash $d/demo.sh >/dev/null 2>&1); echo "clean demo: $?"
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1; echo "build: $?"
bash /opt/vp/test.sh /root/scratch/t.json >/dev/null 2>&1; echo "tests: $?"
python3 - <<'P'
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/root/scratch/t.json"))
def names(x): return set(x.get("stable") or x.get("passed") or [])
print("tests broken:", sorted(names(b)-set(t["passed"])))
P
(cd /repo && bash $d/demo.sh); echo "patched demo: $?"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$2" ] || { python3 /verif/tools/check.py $p | tail -3; echo "check: ${PIPESTATUS[0]}"; }
git -C /repo checkout -- .
