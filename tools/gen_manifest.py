#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
PENDING = []
TECH = "deterministic simulation: seeded search over schedules and injected faults"
N = {
 "C01": ("exploration", "every result, final contents, cursors and capacity of each simulated execution is checked for linearizability against a byte-array model (WGL search); code is the instrumented working tree, sync is simulated, memory is sequentially consistent; schedules and inputs are sampled"),
 "C02": ("exploration", "happens-before race detection over every hooked memory access of the working tree's v1 and v2 under seeded schedules; sampled"),
 "C03": ("exploration", "regions claimed by Next calls are recovered from tagged payloads and checked for being disjoint, contiguous and complete, plus linearizability; sampled schedules"),
 "C04": ("fault_enumeration", "memory faults are placed at sampled access numbers inside calls, rejected arguments are generated, and the model allows only what the statement allows; sampled schedules and fault points, covering every element access site"),
 "C05": ("exploration", "every workload must finish within a step bound under schedules that end fair, with stalls, panics and rejected calls; sampled"),
 "C06": ("exploration", "lock-holder sections touching wrapped memory are part of the linearizability history, and no effective call may start and end inside one; sampled"),
 "C07": ("exploration", "sections are compared call by call with the model, with race detection and lock accounting; callers that panic inside sections are injected; sampled"),
 "C08": ("exploration", "each task's results are compared with a solo model, with race detection over shared inputs; sampled schedules and programs"),
 "C09": ("exploration", "results against the model, race detection, and state comparison after concurrent read-only calls; sampled"),
 "C10": ("exploration", "call-by-call comparison of results and whole observable state with the model across hand-offs; sampled histories"),
 "C11": ("fault_enumeration", "a memory fault at a sampled access number inside sampled calls, then complete state readback and further calls against the model; sampled"),
 "C12": ("fault_enumeration", "the generator runs as simulated processes over a simulated file system with leftovers, kills, directory and map orders and overlapping runs; sampled; the real jennifer renderer and the real generator source run"),
 "C13": ("fault_enumeration", "failures are injected into sampled operations of the simulated file system; exit status, diagnostics and files are judged; sampled"),
 "C14": ("fault_enumeration", "the whole simulated file tree is compared before and after runs with faults and kills; sampled"),
 "C18": ("exploration", "the real generator runs in the simulator over the real templates under seeded orders; its output is compiled next to the checked-in package and both go through the same simulated histories (hand-offs, rejected calls, memory faults), each judged by the reference model: a history on which exactly one of them deviates, or on which a method made from a template line deviates, is a violation; method sets are compared; sampled"),
 "C20": ("exploration", "callers share payloads, overwrite what they passed, keep and overwrite what they got, check the memory they own; a deviation from the model or a race counts when it is gone in the same history with callers that never reuse memory; sampled"),
 "C22": ("fault_enumeration", "failures that strike once or for good, kills, stopped processes, overlapping runs and leftovers; every process that is not killed has to exit within a step bound a hundred times above what ordinary runs need; sampled"),
 "C21": ("fault_enumeration", "a crash at each (or each n-th) scheduling point of every run: the memory the buffers wrap must hold all effects of the calls that returned, old or new bits of the call in progress, everything else as it was; callers store through Bytes; sampled"),
}
NA = {
 "C15": "pure function of its inputs: no schedule, time, I/O or fault influences an encoding, so simulation adds nothing over input enumeration (the simulated checks do compare every value transferred with the model, but do not claim this)",
 "C16": "pure input-validation over all of int64: depends on arguments only, not on schedules, faults or histories",
 "C17": "pure function of arguments and size: depends on no schedule, fault or history",
 "C19": "a cost bound: the simulator counts scheduling points, not time or allocations, so it cannot decide it",
}
import os
checks, na = [], []
for p in sorted(N):
    if p in PENDING:
        na.append({"property": p, "reason": "check not finished yet"})
        continue
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "technique": TECH, "level": N[p][0], "level_note": N[p][1]})
for p in sorted(NA): na.append({"property": p, "reason": NA[p]})
m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": checks, "not_applicable": na,
 "notes": "No hooks are committed in /repo: the checks instrument a copy of its working tree. See DESIGN.md. ./check.sh replay FILE re-runs a reported violation."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
