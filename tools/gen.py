#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from table.py; only claims the properties whose harness exists.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from table import HARNESS, PROPS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, p in PROPS.items():
        assert len(p["title"]) <= 80, id
        f.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for id, p in PROPS.items():
    if os.path.exists(os.path.join(HERE, "harness", p["harness"] + ".cpp")):
        checks.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
            "evidence_file": "evidence/%s.json" % id,
            "technique": p.get("technique", "explicit-state model checking of the implementation against a reference model"),
            "level": "model_checking", "level_note": p["note"] + " Bounds: " + p["bounds"] + "."})
    else:
        na.append({"property": id, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "g++ --version >/dev/null && python3 -m py_compile check.py table.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API of the headers. Each check compiles its harness against /repo/src (tools/gen.py writes this file from table.py)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
# the part of DESIGN.md about each property
path = os.path.join(HERE, "DESIGN.md"); text = open(path).read()
head, tail = "<!-- properties: written by tools/gen.py -->\n", "<!-- end of the properties -->\n"
if head in text:
    out = ""
    for id, p in PROPS.items():
        out += "**%s %s.** Enumerated: %s. Bounds: %s. Oracle and strength: %s %s%s\n\n" % (id, p["title"], p["text"], p["bounds"], p["note"],
            "Beyond the tests: " + p["why"], " Assumes: " + "; ".join(p["assumptions"]) + "." if p["assumptions"] else "")
    a, b = text.index(head) + len(head), text.index(tail)
    open(path, "w").write(text[:a] + "\n" + out + text[b:])
