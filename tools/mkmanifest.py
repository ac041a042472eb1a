"""writes MANIFEST.json (levels: proof only where every obligation is discharged on the unchanged tree)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
NA = {
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    n = notes.get(i, {})
    checks.append(
        {
            "property": i,
            "quick_cmd": "python3-vt -m pyvc.check {}".format(i),
            "thorough_cmd": "python3-vt -m pyvc.check {} --tier thorough".format(i),
            "technique": n.get("technique", "contract-based deductive verification (obligations generated from the real Python source, z3/cvc5), bounded stand-in for what is out of reach"),
            "level": n.get("level", "exploration"),
            "level_note": n.get("note", "bounded stand-in only so far"),
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "see DESIGN.md; known findings and repaired defects: known_findings.json",
    },
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
