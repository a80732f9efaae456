"""Writes MANIFEST.json from the table below (the claimed properties) and properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = json.load(open("tools/claims.json"))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    c = T.get(i)
    if not c:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i}",
        "thorough_cmd": f"bin/check-thorough {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
na = [{"property": i, "reason": "no check has been built for this property yet"} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na},
          open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", len(na), "not")
