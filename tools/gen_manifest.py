#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
model = "runtime monitoring: stateful random workloads, state compared with a reference model after every operation"
ops = "runtime monitoring: random trees over several construction routes, observed result compared with a reference model"
trip = "runtime monitoring: recorded output judged by an independent parser, round trips compared with a reference model"
fault = "runtime monitoring: hostile and mutated input with injected I/O faults, verdicts compared with an independent parser"
tech = {
    "C01": model, "C02": model, "C03": model, "C04": model, "C23": model,
    "C05": ops, "C06": ops, "C07": ops, "C08": ops, "C09": ops, "C11": ops,
    "C10": "runtime monitoring: projectivization observed on random discontinuous trees, result and report judged against the lifting definition",
    "C12": trip, "C13": trip, "C15": trip, "C16": trip, "C18": trip, "C21": trip,
    "C14": fault, "C17": fault,
    "C19": "runtime monitoring: every label compared with an independent computation of lowest common ancestors",
    "C20": "runtime monitoring: random and malformed label sequences decoded, results judged by a structural monitor",
    "C22": "runtime monitoring: pairs of trees over different construction routes, equality compared with a canonical form",
    "C24": "runtime monitoring: spans of live trees compared with explicit sets of positions",
    "C25": "runtime monitoring: operation histories on annotations compared with a map model",
    "C26": "runtime monitoring: the real program run under random options, output compared with a predicting reference model",
    "C27": "runtime monitoring: fault injection on the real program, status, message and partial output judged",
    "C29": "runtime monitoring: chains of conversions in the library and the real program, each step compared with a model of what the formats express",
    "C30": "runtime monitoring: instrumented source, sink and allocator observe position, arrival and memory at every sentence; resident memory of the real program",
    "C28": "runtime monitoring: differential histories (alone, streams, chunks, threads, processes) and clone isolation",
}
note = ("Held on the executions of the run (evidence: counts of what was observed), not verified beyond them. Trusts the reference "
        "model and independent parsers in monitor/src (model.rs, text.rs, gen.rs) and the sizes generated there (mostly up to some tens, "
        "at times some hundreds of words); built with debug assertions and overflow checks.")
extra = {
    "C26": " The order of projectivization is taken from the library run on the sentence alone (C10 judges it).",
    "C30": " Memory is judged with slack: growth by some kB (program: by a third of the input) is not seen.",
    "C28": " Threads share nothing by construction; the monitor would see state that leaks over statics, thread locals or the reader.",
}
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "checks": [
        {
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech[i],
            "level": "exploration",
            "level_note": note + extra.get(i, ""),
        }
        for i in ids
    ],
    "not_applicable": [],
    "notes": "No hooks: everything the properties speak about is visible at the public API and at the program's boundary. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
