import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification checked with TLC; TLC-generated and seeded random behaviours executed on the real code and every observation judged by TLC against the specification",
            level="model_checking",
            level_note="Specification invariants are exhaustive within the stated small constants; conformance of the code is decided on the explored behaviours only (TLC-enumerated small ones plus seeded random larger ones). Trusts TLC, java/Num.java (exact rationals; doubles for exp/log), the Python driver's encoding, and a float tolerance of 1e-9 unless stated."))
    else:
        na.append(dict(property=i, reason="check still under construction"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo are needed: all observations go through the public API and user-supplied callbacks."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
