#!/bin/bash
# runs every planted bug (or those named) against its property's check; writes seeded_results.json
cd "$(dirname "$0")"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  if grep -q "\.pyx\|\.cpp\|\.h$" seeded/$d/patch.diff; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
  r=$(timeout 900 bash run.sh $p 2>&1 | grep -c "^VIOLATION property=$p")
  git -C /repo checkout -- .
  if grep -q "\.pyx\|\.cpp\|\.h$" seeded/$d/patch.diff; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
  [ "$r" -gt 0 ] && v="$p" || v="missed"
  echo "$d $v"
  python3 - "$d" "$v" <<'P'
import json, sys, os
f = "seeded_results.json"
j = json.load(open(f)) if os.path.exists(f) else {}
j[sys.argv[1]] = sys.argv[2]
json.dump(j, open(f, "w"), indent=1, sort_keys=True)
P
done
python3 tools_design.py
