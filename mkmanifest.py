#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py (run by hand after editing the registry)."""
import json, registry
checks = []
for pid in sorted(registry.PROPS):
    p = registry.PROPS[pid]
    checks.append(dict(
        property=pid, quick_cmd="python3 check.py %s quick" % pid,
        thorough_cmd="python3 check.py %s thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique="bounded symbolic execution of the compiled code (LLVM IR), Z3 deciding every branch and assertion",
        level="model_checking",
        level_note=("Every path within the bounds listed in the evidence file is decided by Z3; counterexamples are replayed natively before being reported. "
                    "Trusted: rustc/LLVM down to the IR, the executor in engine/, Z3. Outside the claim: " + p["outside"] + ".")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=registry.NOT_APPLICABLE,
         notes="One harness binary per property (harness/src/bin/pNN.rs); see DESIGN.md.")
if registry.HOOKS:
    m["hooks"] = registry.HOOKS
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
