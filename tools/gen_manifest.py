#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
if os.path.exists(H + "/tools/not_applicable.json"):
    NA = json.load(open(H + "/tools/not_applicable.json"))
NOTES = {}
if os.path.exists(H + "/tools/notes.json"):
    NOTES = json.load(open(H + "/tools/notes.json"))
checks, na = [], []
for ln in open(H + "/properties.jsonl"):
    pid = json.loads(ln)["id"]
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif glob.glob(H + "/harness/" + pid + "*.cpp"):
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                           evidence_file="evidence/%s.json" % pid,
                           technique="symbolic execution of the LLVM IR of the real code, assertions decided by SMT (bit-vectors/floating point)",
                           level="model_checking",
                           level_note=NOTES.get(pid, "Every assertion is decided for all input values within the bounds listed in the harness; trusts clang's IR, the executor's IR semantics and library models, and the solvers; counterexamples are replayed natively before being reported.")))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
         notes="Each check compiles harness/<id>*.cpp with /repo's current sources to LLVM IR and runs engine/muusym on every entry.")
HK = H + "/tools/hooks.json"
if os.path.exists(HK):
    m["hooks"] = json.load(open(HK))
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
