#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vf/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vf"))
import props

NA = {
    "C31": "running time and complexity of concrete executions: no sound static bound on nom's and the allocator's cost is in reach, and the linear loops themselves are covered under C09 and C02",
    "C32": "the quality of a search run over runtime states (which algs it prints for a scramble) is not visible in the shape of the code; the example is not part of the library",
}
VF = "static value-flow comparison of the MIR with a reference model (dataflow over all paths, loop simulation)"
TECH = {
    "C01": VF + ", and a recursion rule over the call graph",
    "C11": VF + ", and who-may-access rules for private fields and unsafe functions",
    "C12": VF + ", and who-may-access rules for private fields and unsafe functions",
    "C16": VF + ", and a rule that no Hash or PartialEq depends on an address or a reference count",
    "C20": VF + " of the macros' token generators, whose output is compared as typed expressions",
    "C22": VF + " of the loaders and of a probe crate that expands the macros, and rules on where the returned reference comes from and where a value may be built",
    "C29": VF + ", and rules on who constructs and changes a comment's text",
    "C21": "static check of the puzzle tables against an independent geometric model, and value-flow comparison of the loaders' MIR",
    "C26": "effect analysis over the resolved call graph of the type-checked MIR",
    "C27": "trait and field analysis by the compiler (Send/Sync/Freeze) and a who-may-write analysis of raw pointers in the MIR",
    "C28": "name-resolution analysis of the public exports of the crates, and type-checking a probe crate that uses all macros through the facade",
}
NOTE = ("Compares the MIR of every function the property depends on with a reference model over all paths and inputs (loops by simulation, library calls by models). "
        "A change is reported only for a definite difference; what cannot be decided is listed as UNDECIDED in the output and evidence and does not fail the check. "
        "Trusts the reference model, rustc's MIR and the library models.")
LN = {
    "C26": "Decides the absence of effects for all inputs over the resolved call graph; dynamic calls are resolved by trait and type. Trusts that the library functions not listed as effects have none.",
    "C27": "Send, Sync and interior mutability are decided by the compiler's trait solver; writes through shared references by a flow analysis of raw pointers. Trusts the unsafe code's other obligations to C11 and C12.",
    "C28": "Decides name resolution exactly as the compiler computed it.",
}
out = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        out["not_applicable"].append({"property": p, "reason": NA[p]})
        continue
    out["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --thorough" % p,
        "technique": TECH.get(p, VF),
        "level": "other",
        "level_note": LN.get(p, NOTE),
    })
out["notes"] = "Static analysis only: nothing of the repository is executed. See DESIGN.md."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
