"""Writes MANIFEST.json from properties.jsonl and the check modules' META."""
import ast
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
NA = json.load(open(f"{root}/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    f = f"{root}/vp/checks/{p['id'].lower()}.py"
    if os.path.exists(f):
        meta = next(ast.literal_eval(n.value) for n in ast.parse(open(f).read()).body
                    if isinstance(n, ast.Assign) and n.targets[0].id == "META")
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt -m vp.check {p['id']} quick",
                       "thorough_cmd": f"python3-vt -m vp.check {p['id']} thorough",
                       "technique": meta.get("technique", "deductive verification: contracts on the real functions, weakest-precondition-style symbolic execution, z3"),
                       "level": meta["level"], "level_note": meta.get("level_note", meta.get("explanation", ""))[:2000] or "see DESIGN.md"})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
