"""Append a property entry (file argument) to tools_props.py, regenerate everything; extra args prefix=Cxx for fixes."""
import json, subprocess, sys
s = open("/verif/tools_props.py").read().rstrip()
assert s.endswith("]")
if sys.argv[1] != "-":
    s = s[:-1] + open(sys.argv[1]).read() + "]\n"
    open("/verif/tools_props.py", "w").write(s)
d = json.load(open("/verif/tools_fixed_extra.json"))
for a in sys.argv[2:]:
    k, v = a.rsplit("=", 1)
    d[k.removeprefix("fix: ")] = v
json.dump(d, open("/verif/tools_fixed_extra.json", "w"), indent=1)
for t in ("manifest", "fixed", "design"):
    subprocess.check_call([sys.executable, f"/verif/tools_{t}.py"], cwd="/verif")
