#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "property-based testing: generated well-formed logs against the log's own construction",
 "C02": "property-based testing: generated and mutated buffers against a reference scan",
 "C03": "property-based testing: generated messages against a reference decoder, view addresses checked",
 "C04": "property-based testing: exhaustive small domains and random constructor arguments, round trip against a reference encoder",
 "C05": "property-based testing: generated buffers and partition counts against partition laws and a reference scan",
 "C06": "property-based testing: generated nested and damaged buffers and ranges against a reference scan",
 "C07": "property-based testing: generated buffers against a reference scan, four record types",
 "C08": "property-based testing: generated buffers against a naive list of all images, four record types",
 "C09": "property-based testing: generated record runs against a naive strict reader, five record types",
 "C10": "property-based testing: generated buffers and regexes against per-message matching",
 "C11": "property-based testing: generated buffers and capture regexes against per-message matching",
 "C12": "property-based testing: generated pipelines against a list interpreter",
 "C13": "property-based testing: generated relations and sequences against a run-splitting model",
 "C14": "property-based testing: generated nested splits and forks against a list interpreter",
 "C15": "property-based testing: generated values and orders against union-find, metamorphic permutation",
 "C16": "property-based testing: generated stages, iterator form against push form and list interpreter",
 "C17": "property-based testing with injected read faults: generated files against their own bytes",
 "C18": "property-based testing of the command line tool against a reference scan",
 "C19": "property-based testing of the command line tool against a naive run model",
 "C20": "property-based testing of the command line tool over CPU counts, differential against sequential reference",
 "C21": "property-based testing of the command line tool with injected I/O faults, round trip",
 "C22": "property-based testing: metamorphic truncation and concatenation",
 "C23": "property-based testing: generated multi-megabyte repetitive buffers in supervised processes against linear-time references",
 "C24": "property-based testing: metamorphic placement of slices (guard pages, larger buffers, reused memory), generated interleavings of iterators, and threads",
 "C25": "property-based testing of the command line tools with injected output faults and generated invalid argument lists",
}
GUIDED = [i for i in T if i not in ("C17", "C18", "C19", "C20", "C21", "C25")]
for i in GUIDED:
    T[i] = T[i].replace("property-based testing", "property-based testing with coverage-guided fuzzing", 1)
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
        "level_note": "Random exploration by seed over the generated domain described in DESIGN.md, every case decided by an explicit oracle; it does not establish absence. Trusts the reference model in harness/src/model.rs, which shares no code with the crate under test."})
json.dump({"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": [],
    "notes": "No hooks are needed. Defects found are repaired in /repo (known-findings.txt). Failing cases are shrunk and written to replays/; 'bash check.sh --replay FILE' runs one again."},
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
