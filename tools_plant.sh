#!/bin/bash
# tools_plant.sh ID PROP NEEDS WHAT < demo.py : records /repo's working diff as a planted bug,
# after running build, stable tests, the demonstration with and without it, and PROP's check;
# undoes the change in /repo.
id=$1; prop=$2
here=$(cd "$(dirname "$0")" && pwd); d=$here/seeded/$id
mkdir -p "$d"
cat > "$d/demo.py"
git -C /repo diff > "$d/patch.diff"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
export TMPDIR=$t XDG_CACHE_HOME=$t HDF5_USE_FILE_LOCKING=FALSE; mkdir -p "$t/astropy"
cd "$t" && "$PY" -W ignore "$here/demo.py"
D
"/opt/venv/bin/python" - "$d" "$prop" "$3" "$4" <<'D'
import json, sys
d, p, n, w = sys.argv[1:]
json.dump({"property": p, "needs": n, "what_it_breaks": w}, open(d + "/meta.json", "w"), indent=1)
D
bash /opt/vp/build.sh >/tmp/pl.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/pl.log; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/pl.json >/dev/null 2>&1; python3 $here/tools_cmp.py /tmp/pl.json | tail -1 | cut -c1-600
fi
(cd /repo && bash "$d/demo.sh") >/tmp/pl.out 2>&1; echo "demo with patch: $? $(tail -1 /tmp/pl.out | cut -c1-200)"
(cd "$here" && timeout 900 bash run.sh $prop) >/tmp/pl.chk 2>&1; tail -2 /tmp/pl.chk | cut -c1-300
grep -q "^VIOLATION property=$prop" /tmp/pl.chk && v=$prop || v=missed
python3 - "$here" "$id" "$v" <<'P'
import json, sys, os
f = sys.argv[1] + "/seeded_results.json"
j = json.load(open(f)) if os.path.exists(f) else {}
j[sys.argv[2]] = sys.argv[3]
json.dump(j, open(f, "w"), indent=1, sort_keys=True)
P
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/pl.log 2>&1
(cd /repo && bash "$d/demo.sh") >/tmp/pl.out 2>&1; echo "demo without: $? $(tail -1 /tmp/pl.out| cut -c1-200)"
