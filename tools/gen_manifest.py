#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NOTE = ("Contracts on the functions c8x extracts from /repo/src on every run, every obligation discharged by Verus/Z3 for all inputs. "
        "The code of twelve_bit and ihex that c8s uses is proved from its sources, and the stand-ins for std operations have verified bodies where Verus can see them. "
        "Trusted: the extractor's rewrites (validated by running the extracted program beside the real one), contracts of regex, getopts, file and console I/O and the remaining std primitives (listed one by one in the evidence), Verus/Z3. ")
EXTRA = {
}
THEOREMS = {
    "C01": ["opcode::Opcode::to_u16 ensures", "opcode::Opcode::from_instruction ensures", "assembler::emit_data_ranges ensures"],
    "C07": ["data_range::find_overlapping_ranges ensures"],
    "C09": ["ihex_writer::ihex_representation_of_data_ranges ensures"],
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification (Verus) of the functions extracted from the source; bounded differential runs for what the contracts trust",
        "level": "proof",
        "level_note": NOTE + EXTRA.get(i, ""),
    })
m = {"version": 1,
     "setup_cmd": "cargo build --release --offline --locked --manifest-path extract/Cargo.toml && cargo build --release --offline --locked --manifest-path oracle/Cargo.toml",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks: /repo carries only fix: commits. known-findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
