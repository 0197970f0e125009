#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH = "bounded exhaustive enumeration (explicit-state model checking of the real code against a reference model)"
FAULT = "exhaustive fault-point enumeration on the real code"
SCHED = "stateless model checking: all thread interleavings up to a preemption bound under a controlled scheduler, race detector on"
tech = {
 "C01": EXH, "C02": EXH + ", incl. all map iteration orders", "C03": EXH, "C04": EXH, "C05": EXH + ", judged by an independent on-disk-format decoder",
 "C06": EXH, "C07": EXH, "C08": "exhaustive enumeration of 1- and 2-bit corruptions, feature bits and cuts", "C09": EXH, "C10": EXH,
 "C11": "exhaustive enumeration of mutations under deterministic step and allocation budgets", "C12": "exhaustive enumeration of truncation points",
 "C13": FAULT, "C14": FAULT, "C15": "explicit-state exploration to closure, and all histories up to a depth, every step executed on the real code and compared with the model",
 "C16": SCHED + "; linearizability decided by search over all orders", "C17": SCHED, "C18": EXH, "C19": "all operation histories up to a depth on the real code against a model",
 "C20": "exhaustive enumeration of map iteration orders, chunkings, operation sequences and schedules", "C21": EXH, "C22": "exhaustive enumeration of conversion chains over all small trees",
}
fault = {"C08", "C11", "C12", "C13", "C14"}
note = {
 "C16": "Every schedule with up to the stated number of preemptions, at sync operations and (in smaller programs) at every statement, of every program of the enumerated operations. The scheduler controls sync primitives and goroutine starts, not channels; go's memory model is covered by running under the race detector.",
 "C17": "Every schedule up to the stated preemption bound of every pair (some triples) of the operations; data races are additionally reported by the race detector, which is precise for the executions explored.",
 "C15": "Closure: every state of the bounded model is reached on the real code and every operation executed in it. Trusts the sequential reference model in harness/vmc/c15.go.",
}
default = "Holds for every case in the stated bounds (evidence: coverage.bounds), each executed on the code built from the working tree and compared with a reference model or encoder/decoder that shares no code with it. Says nothing beyond the bounds; trusts the models in harness/vmc, Go's archive/tar and the toolchain."
checks = []
for i in range(1, 23):
    p = f"C{i:02d}"
    checks.append({"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough", "evidence_file": f"evidence/{p}.json",
        "technique": tech[p], "level": "fault_enumeration" if p in fault else "model_checking", "level_note": note.get(p, default)})
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "none: the sources are instrumented into a go build -overlay outside /repo", "enable": "bin/check instruments /repo's working tree on every run (harness/instr)", "source_commits": []},
 "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
