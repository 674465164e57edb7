"""DESIGN.md from DESIGN.tmpl.md, the checks' docstrings and bounds, and seeded/*/meta.json."""
import ast, json, os, glob
from tools_props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
res = {}
p = os.path.join(here, "seeded_results.json")
if os.path.exists(p):
    res = json.load(open(p))
out = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    f = os.path.join(here, "mc/checks/%s.py" % p["id"].lower())
    out.append(f"### {p['id']} {p['title']}\n")
    if not os.path.exists(f):
        out.append((p["na"] or "No check yet.") + "\n")
        continue
    t = ast.parse(open(f).read())
    b = ""
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            b = ast.literal_eval(n.value)
    doc = " ".join((ast.get_docstring(t) or "").split())
    out.append(f"* check: `mc/checks/{p['id'].lower()}.py` - {doc}\n* explored: {b}\n* beyond the tests: {p['why']}\n")
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(i, '')} |")
s = open(os.path.join(here, "DESIGN.tmpl.md")).read()
s = s.replace("PER_PROPERTY", "\n".join(out)).replace("SEEDED", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(s)
