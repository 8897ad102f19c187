"""writes MANIFEST.json"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = ("Postconditions of the functions the real derive macro generates (and of the crate's own traits), over the LLVM IR of /repo's current code, "
         "discharged for all inputs by symbolic execution to bit-vectors and z3; loops are followed to their end, not cut off. "
         "Definitions are an enumerated grid plus seeded random ones. Trusts rustc and LLVM, the IR semantics in vc/llvmvc.py, z3 and the layout model.")
NOTE = {
    "C09": " The rejection half is a bounded enumeration of definitions through the real macro, not counted as proved.",
    "C16": " The rejection half is a bounded enumeration of definitions through the real macro, not counted as proved.",
    "C18": " The rejections through the macro are a bounded enumeration, not counted as proved.",
    "C12": " from_vec is proved for a fixed set of vector lengths around the structure's size, from_slice for every length up to two past it.",
    "C14": " from_hex_vec is proved for a fixed set of vector lengths around twice the structure's size, from_hex_slice for every length up to two past it.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt vc/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt vc/check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification of the compiled real code (LLVM IR verification conditions, z3)",
        "level": "proof",
        "level_note": PROOF + NOTE.get(i, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3' && rustc --version",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything under contract is reached through what users call. Known findings and repairs: known-findings.txt. Design: DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
