#!/usr/bin/env python3
# Writes ../MANIFEST.json. Run by hand when the set of checks changes.
import json, os
T = "deterministic simulation with fault injection: "
claimed = {
 "C01": ("exploration", T+"algorithm executions by concurrent callers that share algorithm and target objects, then alone on fresh objects, under different schedules, map seeds and randomness; chains and operation lists judged independently",
   "What simulation decides is that the chain of an input is the same and genuine in every run, history and schedule, and the shared target unmodified; over inputs the check samples: every configuration on 1 to 48 (thorough: 300), random targets of up to 521 (1024) bits otherwise. No I/O is on this path, so no faults are injected."),
 "C12": ("exploration", T+"seeded goroutine scheduler inside a patched Go runtime, controlled algorithms, race-detector build",
   "Seeded search over schedules and workloads of the real executor; a clean run is evidence, not proof. Preemption at statement granularity; data races by ThreadSanitizer on the simulated schedules."),
 "C14": ("exploration", T+"whole CLI sessions in a simulated process (scheduler, kernel, clock, randomness), reference script evaluator, minimum recomputed from algorithms run alone",
   "Seeded search over expressions, costs, -p, schedules and benign I/O faults; targets of up to 100 bits (quick) or 256 bits (thorough)."),
 "C15": ("exploration", T+"command lines and library sessions under schedules, I/O faults, step and memory budgets; deadlock, crash, hang, memory and lost-output detection; fault-free twin runs",
   "Seeded search; shift amounts up to 3000 each, texts up to 70 KB, accepted search targets up to 72 bits apart from the recorded finding."),
 "C20": ("exploration", T+"histories of metadata operations by concurrent callers over a simulated file system with disk faults, against an ordered-map model; the release tool as a process",
   "Seeded search over histories, values and faults; bounded sizes."),
 "C03": ("exploration", T+"scripts loaded from simulated streams and files by concurrent callers, and the eval command, under short reads, stalls and failures; reference parser and evaluator as model",
   "Seeded search over texts, stream behaviours, faults and schedules; all texts of up to 3 (thorough: 4) tokens in three contexts are among the workloads."),
 "C04": ("exploration", T+"programs written as scripts to simulated streams and files and loaded back, fmt -b as a process, under write and read faults; reference loader and expander as model",
   "Seeded search; all duplicate-free programs of up to 5 (thorough: 6) operations are among the workloads."),
 "C06": ("exploration", T+"generator output written to simulated streams and files, gen as a process, under faults; listings executed by an interpreter with the output register separate and aliased",
   "Seeded search over scripts, outputs, faults and schedules."),
 "C07": ("exploration", T+"trees and scripts printed to simulated streams and parsed back, fmt and fmt -b as processes and fmt on its own output, under faults; reference parser as model",
   "Seeded search; all small trees over a few leaves are among the workloads."),
}
pure = "pure function of its arguments: no goroutine, clock, randomness, stream, lock, retry or state between calls is on its path, so no schedule or fault can change its outcome and simulating one decides nothing a plain test of the same inputs would not"
na = {
 "C02": "Chain validation and Ops: "+pure,
 "C05": "Allocator pass: "+pure+"; what the allocation means for generated code is decided under C06",
 "C08": "FindSequence of the sequence algorithms: "+pure+"; their use inside chain algorithms, with sequence algorithms shared between concurrent executions, is exercised under C01 and C12",
 "C09": "Dictionary decompositions: "+pure+"; their use inside chain algorithms is exercised under C01",
 "C10": "Chain optimisation: "+pure+"; its use on the results of every algorithm is exercised under C01",
 "C11": "RunsChain: "+pure,
 "C13": "Expression evaluation: "+pure+"; that no expression crashes or hangs the tool is decided under C15",
 "C16": "Names of built scripts: "+pure+"; that built scripts load back is decided under C04",
 "C17": "Number of temporaries: "+pure,
 "C18": "Program builders and analyses: "+pure+" other than the program one caller holds",
 "C19": "Multi-precision helpers: "+pure,
}
here = os.path.dirname(os.path.abspath(__file__))
m = {"version": 1, "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "go build -overlay (no guard in /repo)",
  "enable": "sim/build.go builds an instrumented copy of /repo's working tree through a build overlay; /repo contains no hooks", "source_commits": []},
 "checks": [], "not_applicable": []}
for k in sorted(claimed):
    lv, te, no = claimed[k]
    m["checks"].append({"property": k, "quick_cmd": "VERIF_TIER=quick ./check.sh "+k, "thorough_cmd": "VERIF_TIER=thorough ./check.sh "+k, "technique": te, "level": lv, "level_note": no})
for k in sorted(na):
    if k not in claimed:
        m["not_applicable"].append({"property": k, "reason": na[k]})
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
