#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json
NOTES = {
 "C01": ("PBT: generated definitions and values, oracle: serde output against a strict schema validator",
         "Sampled. Trusts serde as the definition of the wire form and the validator in opgv/schema.py; the recorded findings K1, K2, K4, K6, K7 are excluded from generation and re-checked by probes."),
 "C02": ("PBT: generated structs and struct variants, differential against serde's written keys",
         "Sampled. The keys serde really writes, with everything present and with everything skippable skipped, are the oracle."),
 "C03": ("PBT: generated identifiers, renames and case rules, differential against serde",
         "Sampled. Byte-for-byte comparison against the strings serde writes."),
 "C04": ("PBT: generated enums under every tagging, differential against serde per variant",
         "Sampled. Every variant of every generated enum is serialized and matched against its own alternative."),
 "C05": ("PBT: generated annotated definitions, oracle: reference model of annotation placement",
         "Sampled. The oracle is an independent model (opgv/lang.py Model) of where annotations belong."),
 "C06": ("PBT/fuzzing of the derive: grammar-based attribute generation and mutation, oracle: accept/reject classification by construction",
         "Sampled. Compiler diagnostics of the derive on generated items; a panic message, a missing or a spurious diagnostic, or one outside of the item is a violation."),
 "C07": ("PBT: metamorphic, generic definition against its hand-substituted form",
         "Sampled. Schemas and components of both modules are compared for equality."),
 "C08": ("PBT: generated cyclic type graphs (dynamic types and derived definitions), oracle: reference model, hang and overflow detection",
         "Sampled. Termination is observed with a time and memory limit."),
 "C09": ("stateful PBT: mention histories over type graphs, invariant: every reference resolves",
         "Sampled histories; the walker over references is independent of the crate."),
 "C10": ("stateful PBT: metamorphic, permuted and repeated mention histories give equal components",
         "Sampled histories. Types with equal names are outside of the property (K3)."),
 "C11": ("PBT: generated component sets, oracle: independent reference walk",
         "Sampled."),
 "C12": ("stateful PBT: registration histories against a first-wins reference map",
         "Sampled histories, compared after every step."),
 "C13": ("PBT: generated object pairs and property insertions, oracle: reference union with conflicts",
         "Sampled."),
 "C14": ("PBT: generated schemas and parameters, oracle: reference override, plus identity, idempotence and last-wins laws",
         "Sampled."),
 "C15": ("PBT: generated documents, oracle: reference serialization built from the same content, JSON against YAML",
         "Sampled."),
 "C16": ("PBT: generated API descriptions compiled with the macro, oracle: reference document",
         "Sampled."),
 "C17": ("PBT: generated API descriptions compiled with the macro, oracle: reference document",
         "Sampled."),
 "C18": ("PBT: generated type expressions, oracle: reference mapping",
         "Sampled; every scalar and every container constructor is hit in each run."),
 "C19": ("PBT: generated API descriptions with security, oracle: reference document",
         "Sampled."),
 "C20": ("PBT: generated schema descriptions, oracle: reference schema of the same parts",
         "Sampled."),
 "C21": ("PBT: generated type graphs, metamorphic: linked form with the component substituted equals the inlined form",
         "Sampled."),
 "C22": ("PBT: generated API descriptions, oracle: structural OpenAPI 3.0.3 validator, JSON and YAML round trip",
         "Sampled; the validator in opgv/openapi.py is trusted."),
 "C23": ("PBT: metamorphic, the same generated description evaluated repeatedly, in between others, in threads and in two processes",
         "Sampled; the schedules of the threads are those the system happens to choose."),
 "C24": ("PBT: metamorphic, generated compositions of the user's own types against the built-in ones, and a reference mapping",
         "Sampled. impl_opg_model! roles that an outside crate can use; the non-inline scalar branch does not expand and is out of domain."),
}
import sys
sys.path.insert(0, ".")
from opgv.checks import CHECKS
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p, (t, n) in NOTES.items():
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
