"""Writes properties.jsonl, MANIFEST.json and the fixed entries of known_findings.json from tools/props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"python3 sa/run.py {p['id']} --quick",
                       "thorough_cmd": f"python3 sa/run.py {p['id']} --thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa && mkdir -p evidence", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check parses /repo's current sources; nothing of the repository is imported or run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
k = json.load(open(os.path.join(V, "known_findings.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "09d8da7.."], capture_output=True, text=True).stdout.split("\n")
subj = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log if l}
fixed = []
for s, h in reversed(subj.items()):
    if s in props.FIXED:
        fixed.append(f"fixed: property={props.FIXED[s]} {h} {s[5:]}")
    else:
        print("no property for", s)
k["fixed"] = fixed
json.dump(k, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na", len(fixed), "fixed")
