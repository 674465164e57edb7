"""Writes properties.jsonl and MANIFEST.json from one table.  python3 tools_manifest.py"""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
U = "src/pyuvdata/"


def P(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=[U + f for f in files], mech=mech, observe=observe,
        technique=technique, note=note, na=na,
    )


from tools_props import PROPS  # noqa: E402


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            rec = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": U + w} for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(rec) + "\n")
    checks, na = [], []
    for p in PROPS:
        mod = os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")
        if p["na"] or not os.path.exists(mod):
            na.append(
                {"property": p["id"], "reason": p["na"] or "no check built yet"}
            )
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} --tier quick",
                "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"]
                or "bounded exhaustive exploration of call sequences and inputs on the "
                "real code against an independent reference model",
                "level": "model_checking",
                "level_note": p["note"]
                or "Every case of the bounded space stated in the evidence is executed on "
                "the real code and compared with a reference model written without "
                "library code; nothing is claimed outside the bounds.",
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "bash build.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks are needed: the checks drive the public API. "
        "known_findings.json lists genuine defects (recorded and fixed).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not claimed:", [x["property"] for x in na])


if __name__ == "__main__":
    main()
