#!/usr/bin/env python3
"""Writes MANIFEST.json; run after adding a check."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{here}/properties.jsonl")}
src = open(f"{here}/sim/src/props/mod.rs").read()
claimed = [i for i in props if f"{i.lower()}::{i}" in src]
NOTE = {
    "C01": "the same run under several schedules, worker counts, clocks and entropies, compared bit for bit",
    "C02": "parallel, batch-of-one and a second build without rayon, compared bit for bit",
    "C03": "solutions against an independent model fed with the local-search results in the recorded history",
    "C04": "every recorded evaluation and every checkpoint against bounds and constraints",
    "C05": "recorded searches against the model's stopping point, with targets placed at met values",
    "C06": "recorded batches against the deadline on the simulated clock, with limits placed between batches",
    "C07": "crash at an arbitrary evaluation, callback or file-system call, restart, comparison with the uninterrupted run",
    "C08": "crash, power loss or failure at an arbitrary file-system call of a save; surviving disk against a model of the files",
    "C09": "damaged files and failing reads, decoded inside the simulated process under a memory and time limit",
    "C10": "directories with foreign files, shuffled listings, failures and crashes during trimming, against a model of the directory",
    "C11": "observer state at every callback and at the end against the recorded history",
    "C12": "the same run with and without observers, output and checkpoints (and with failing saves)",
    "C13": "failing evaluations at arbitrary calls on arbitrary workers, followed by a clean run",
    "C14": "deadlock detection and step budgets over boundary configurations, and counts of searches",
    "C15": "recorded searches against an independent model of both filters",
    "C16": "several optimisers interleaved in one process against each of them alone",
    "C17": "interruption, change of parameters, continuation; recorded searches and checkpoints against the model",
    "C18": "Stage 1 result against the recorded evaluations",
    "C19": "constraint functions called by problems optimised in sequence, together or nested in a simulated CPython process, against each alone and against the Rust library",
    "C20": "exceptions at chosen calls of Python functions in a simulated CPython process; the others against the Rust library",
    "C23": "optimisations through the bindings in a simulated CPython process against the Rust library run alone",
}
NA = {
    "C21": "constructor validation is a pure function of its arguments: no schedule, clock, I/O or fault can influence it, so there is nothing to simulate",
    "C22": "copying option values in builders is a pure function of the input: no schedule, clock, I/O or fault can influence it, so there is nothing to simulate",
}
checks = [{
    "property": i,
    "quick_cmd": f"sim/run.sh check {i}",
    "thorough_cmd": f"env VERIF_TIER=thorough sim/run.sh check {i}",
    "technique": "deterministic simulation: seeded search over schedules, faults and crash points",
    "level": "fault_enumeration" if i in ("C08x",) else "exploration",
    "level_note": NOTE[i] + ". Sampled, not exhaustive; assumes sequentially consistent interleavings of basic blocks and trusts the simulator's models of scheduler, clock and disk.",
} for i in claimed]
m = {
    "version": 1,
    "setup_cmd": "sim/build.sh all",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in props if i not in claimed],
    "notes": "One simulator binary (sim/) decides all properties; VERIF_SEED selects the cases. Replay: sim/run.sh replay <file>. /repo carries no hooks: all seams are at libc and compiler instrumentation.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
