"""Writes MANIFEST.json: one check per checks/<id>.py; every other property of properties.jsonl is not claimed."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
    "rx": "property-based testing: generated reactor programs and interleavings run on the real runtime under a controlled scheduler, against a reference interpreter and trace invariants",
    "model": "stateful model-based property testing: generated operation sequences against a reference model",
    "value": "property-based testing: generated edge-biased inputs against an exact oracle",
    "rti": "stateful property-based testing of the real RTI with generated federate histories against protocol oracles",
    "fed": "property-based testing: generated federations run on the real federate runtime and the real RTI under a controlled scheduler and network, against a reference interpreter of the unfederated program",
    "fuzz": "coverage-guided fuzzing and generated inputs against a reference oracle",
}
LEVEL = "generated-input search: {rule}. Nothing is claimed beyond the generated cases."
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "checks", p + ".py")):
        na.append({"property": p, "reason": "no check built yet"})
        continue
    m = importlib.import_module("checks." + p)
    c = m.C()
    checks.append({
        "property": p,
        "quick_cmd": "python3 -m checks.%s --tier quick" % p,
        "thorough_cmd": "python3 -m checks.%s --tier thorough" % p,
        "technique": TECH[getattr(m, "TECH", "rx")],
        "level": "exploration",
        "level_note": LEVEL.format(rule="a case counts as non-trivial if it is " + c.rule),
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
