#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
TECH = {
    "C04": ("random structured programs and single instructions, differential against a reference ISA model", "Reference machine written from the ISA definition; 100k programs/instructions with every operand class, compared on registers, memory, flags, pc and count. Bounded to programs halting within 4000 instructions."),
    "C05": ("random faulting programs, single instructions at boundary addresses and raw images, differential against a reference ISA model", "Fault classes and boundary addresses are generated densely; an error or result is demanded by the reference's verdict, panics are violations, hangs are judged by instruction count in a child process."),
    "C06": ("lockstep differential of generated programs against a reference ISA model after every cycle", "Compared after each of several million cycles; flags are compared where the architecture shows them."),
    "C07": ("differential of generated hazard-rich programs against a reference ISA model", "Programs overwriting one of the next 3 executed instructions are skipped as the property excludes them."),
    "C08": ("differential of generated faulting programs against a reference ISA model stopped at the fault", "Undefined function codes and register fields are skipped; the property leaves them open."),
    "C09": ("generated programs, cycle counts compared with a formula over the reference's execution", "The formula is computed from the reference's executed instructions, not from the pipeline."),
    "C10": ("metamorphic: traces of repeated, phase-split, printed, interleaved and cross-process runs of generated programs must be equal", "Every signal is compared in every cycle, in the text form the simulator gives."),
}
TECH.update(json.load(open(f"{here}/manifest_more.json")) if os.path.exists(f"{here}/manifest_more.json") else {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing: " + TECH[i][0],
            "level": "exploration",
            "level_note": TECH[i][1],
        })
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
