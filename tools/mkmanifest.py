#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Exploration: absence of a violation is not established beyond the enumerated spaces. Trusts harness/ref (a recogniser independent of the state machine), Go 1.27 and its standard library."
T = {
 "C01": ("PBT: enumerated transition cover + rapid + seeded grammar/mutation bulk, differential against a reference recogniser", "Complete for the enumerated transition cover of the grammar (every state x every byte x distinguishing suffixes), sampled beyond."),
 "C02": ("PBT: enumerated transition cover + rapid + seeded grammar/mutation bulk, differential against a reference recogniser", "Complete for the enumerated transition cover of the grammar, sampled beyond."),
 "C03": ("PBT: enumerated transition cover + rapid + seeded grammar/mutation bulk, differential against a reference recogniser", "Complete for the enumerated transition cover of the grammar, sampled beyond."),
 "C04": ("PBT: reference decomposition and print/re-parse round trip over generated accepted inputs", "Every part is compared with an independent decomposition; all three modes."),
 "C05": ("fuzzing of bytes x options with a validity predicate on the outcome, process watchdog for hangs", "Workers are separate processes, so panics, fatal errors, hangs and memory blow-up are observed and attributed to an input."),
 "C06": ("PBT: reference model of error category and column over generated rejected inputs", "Category and column of the first offence come from the reference recogniser."),
 "C07": ("PBT: reference normal form, idempotence and re-parse over generated and hand-built URNs", "Normal form compared with an independent definition."),
 "C08": ("PBT: metamorphic pairs/triples (equivalent rewritings, one-place differences) and equivalence laws", "Equality compared with equality of reference normal forms for every generated pair."),
 "C09": ("model-based stateful PBT: operation histories on one machine against a new machine per parse", "Each step is compared with a fresh machine; snapshots of all earlier results are re-checked."),
 "C10": ("PBT with injected memory protection: inputs in read-only pages, in larger buffers, overwritten later", "Any store to the input page, also a transient one, faults."),
 "C11": ("generated concurrent programs under the race detector, differential against the sequential run", "Data races are found by happens-before detection on the executed programs, which avoid operations that order the goroutines; schedules are the runtime's."),
 "C12": ("PBT: JSON round trips and generated documents against the parser and a reference, receiver snapshots", "Documents include every escape form, embedding and corruption of the generator."),
 "C13": ("PBT: JSON round trips and generated documents against the parser and a reference, receiver snapshots", "Documents include every escape form, embedding and corruption of the generator."),
 "C14": ("PBT: render/parse/JSON round trips of generated SCIM values and documents, receiver snapshots", "Documents include every escape form, embedding and corruption of the generator."),
 "C15": ("PBT: mode/kind/SCIM view/components table over generated URNs", "Invariant checked for parsed, decoded, normalized and built URNs."),
 "C16": ("PBT: generated option lists and mode-switch histories, differential against the last mode alone", "All option lists up to length 3 are enumerated on typical inputs, sampled beyond."),
 "C17": ("PBT: metamorphic relations between the outcomes of one input in the three modes", "No model of the full grammar is needed for the relation itself; side conditions are the statement's."),
 "C18": ("PBT: enumeration of near-miss strings and integers against a three-entry table, plus random strings", "Complete for all strings up to 2 bytes and integers in -70000..70000."),
 "C19": ("PBT: generated files through the built command, differential against a line-based reference, idempotence", "The command itself is run, as an unprivileged user in a scratch directory."),
 "C20": ("PBT: generated files through the built command, differential against a reference rewriter, idempotence", "The command itself is run, as an unprivileged user in a scratch directory."),
 "C21": ("PBT: generated files, permissions and argument lists; directory snapshots before and after the command", "Run as an unprivileged user in a scratch directory."),
 "C22": ("PBT: generated families of growing inputs; allocation and CPU time bounded by a linear function", "Allocation is exact; CPU time is only judged against a wide margin, several times over the measured cost."),
 "C23": ("PBT: URNs and SCIM values with arbitrary bytes in their exported fields against a model of the string form, equivalence laws", "No method may panic, print otherwise than documented, or change the value; equality must be an equivalence relation."),
 "C24": ("model-based stateful PBT: histories of parses, decodes, copies and field changes on a pool of URNs", "After each operation every other URN of the pool is compared with its snapshot, and the new one with the reference."),
 "C25": ("model-based stateful PBT: histories of field changes and other calls on a URN, differential against a URN built from the current fields", "The reference normal form decides too where the fields make a URN of one of the grammars."),
 "C26": ("PBT: generated texts x environments, differential between processes of programs built for other platforms and in other ways; observation of what a process leaves behind", "Platforms and toolchains are those that can be built and run here (amd64, 386, without optimisation; thorough: Go 1.23-1.27); the clock is not varied."),
}
checks = []
for k in sorted(T):
    tech, note = T[k]
    if k not in ("C11", "C19", "C20", "C21", "C22", "C26"):
        tech += "; coverage-guided fuzzing with the same oracle"
    checks.append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                   "technique": tech, "level": "exploration", "level_note": note + TRUST})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every check is black box. Replay a reported failure with ./check.sh replay FILE."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
