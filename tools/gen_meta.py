"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/gen_meta.py).

Every entry: id, title, statement, over, quant, why, files, mech [(name, where)],
observe, technique, note.
"""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
S = "src/tools21cm/"
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, level="exploration", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=[S + f for f in files], mech=mech, observe=observe, technique=technique,
                  note=note, level=level, hook=hook))

exec((ROOT / "tools" / "props.py").read_text())

def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": S + b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        if (ROOT / "checks" / (p["id"] + ".py")).exists():
            checks.append({"property": p["id"],
                           "quick_cmd": f"bash run.sh {p['id']} quick",
                           "thorough_cmd": f"bash run.sh {p['id']} thorough",
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks are committed in /repo: the monitors wrap the public API and patch I/O entry points from /verif at run time."},
              open(ROOT / "MANIFEST.json", "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
main()
