#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
import checks, props
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
entries, missing = [], []
for p in props.P:
    c = checks.CHECKS.get(p["id"])
    if not c:
        missing.append(dict(property=p["id"], reason=props.NOT_APPLICABLE[p["id"]]))
        continue
    entries.append(dict(
        property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=c.get("technique", "bounded exhaustive stateless exploration of the real code against a reference model"),
        level="model_checking",
        level_note="Exhaustive within: " + c["bounds"]["quick"] + " (thorough: " + c["bounds"]["thorough"] + "). Trusted: the reference model in "
                   "harness/, the compiler, LAPACK/BLAS. " + c.get("note", "")))
manifest = dict(version=1, setup_cmd="python3 gen.py --check", checks=entries, not_applicable=missing,
                notes="No hooks: every driver includes or links /repo's sources as they are.")
import sys
text = json.dumps(manifest, indent=1) + "\n"
path = os.path.join(HERE, "MANIFEST.json")
if "--check" in sys.argv:
    assert open(path).read() == text, "MANIFEST.json is out of date"
    print("manifest up to date,", len(entries), "checks")
else:
    open(path, "w").write(text)
    print(len(entries), "checks,", len(missing), "not applicable")
