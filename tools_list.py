"""List every failing case of a check, one short line each: tools_list.py Cxx [substr] (PYTHONPATH decides the tree)."""
import sys, json, re, warnings, multiprocessing as mp
sys.path.insert(0, "/verif"); warnings.simplefilter("ignore")
import importlib
from mc import core
m = importlib.import_module("mc.checks." + sys.argv[1].lower())
def one(c):
    try:
        m.run(c, core.Ctx())
    except core.Violation as e:
        return str(c), str(e)
    except Exception as e:
        return str(c), f"{type(e).__name__}: {e}"
if __name__ == "__main__":
    cs = [c for c in m.cases("quick") if len(sys.argv) < 3 or sys.argv[2] in json.dumps(c)]
    with mp.Pool(5) as p:
        r = [x for x in p.imap_unordered(one, cs, 8) if x]
    for a, b in sorted(r):
        print(a, "|", re.sub(r"\s+", " ", b)[:int(sys.argv[3]) if len(sys.argv) > 3 else 170])
    print(len(r), "of", len(cs))
