#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: random and hostile workloads on the public API, every returned value judged online by an independent executable reference model"
T = {
 "S08": "runtime monitoring: recorded call histories with snapshots of all live objects before and after every call (state-hook oracle over pools of aliased objects)",
 "S09": "Go race detector over repeated concurrent workloads, plus a recorded-results oracle (concurrent result equals the result of the same call run alone)",
 "S14": "runtime monitoring with an oracle over solution sets (reference relation evaluated symbolically and at points)",
 "S15": "runtime monitoring with an oracle over solution sets (matrix rows compared with the reference constraint)",
 "S16": "runtime monitoring with an exact implication oracle and point sampling",
 "S17": "runtime monitoring: every operation driven with one ill-formed operand at a random position; oracle: must refuse",
 "S18": "runtime monitoring: acceptance table over kinds and shapes, watchdog on CPU time, well-formedness oracle on every result",
 "S19": "runtime monitoring of variable creation histories against a registry model; identity oracle over all variables in every result",
 "S20": "runtime monitoring: printed text read back by an independent parser and compared with the reference model",
 "S23": "runtime monitoring: public helpers driven with arbitrary shapes, indices, Go values, lists and maps; exact oracle per helper",
 "S21": "runtime monitoring: random composed programs executed on the library and on the reference model, algebraic laws as metamorphic oracle",
}
NOTE = ("Held on every generated case of this run, seeded by VERIF_SEED; a sample, not a proof. "
        "Trusted: the reference model in monitor/ref.go (exact polynomial arithmetic on float64 coefficients with a relative tolerance), "
        "the reading of expressions through exported fields, the Go runtime.")
NOTES = {
 "S09": "Held on the executed schedules of 8 goroutines over shared objects, with the Go race detector on; says nothing about schedules and code paths not executed. Trusted: the race detector, the sequential result of the same call as oracle.",
 "S18": "Held on every generated case; acceptance is judged against the table monitor/support.txt of kind and shape combinations answered by the library, and non-termination by CPU time of a single case. " + NOTE,
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": T.get(p, REF),
        "level": "exploration",
        "level_note": NOTES.get(p, NOTE),
    })
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every monitored state is reachable through exported fields and the public API. Repairs and known findings: known_findings.txt. Design, bounds, catch matrix: DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
