#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/config.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import config, runner

ENUM = "bounded exhaustive enumeration of inputs/operation sequences on the real code, against a reference model"
TECHNIQUE = {
    "C01": "explicit-state conformance: W-method suite over the product automaton of the RFC 3986 grammar, every word run on the real code",
    "C04": "explicit-state conformance: W-method suites over per-component automata plus exhaustive products of values, run on the real code",
    "C05": "bounded exhaustive enumeration of base x reference pairs and of chains of joins on the real code, against a model of RFC 3986 5.2",
    "C06": "bounded exhaustive enumeration of segment sequences on the real code, against a model of RFC 3986 5.2.4",
    "C15": "bounded exhaustive enumeration of rule programs x inputs on the real code, against an ordered-choice interpreter",
    "C17": "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler, with happens-before race detection",
    "C18": "exhaustive enumeration of call histories on the real code, each against fresh-process baselines",
    "C19": "exhaustive fault injection: every allocation index of every representative call fails, singly and persistently",
    "C20": "bounded exhaustive enumeration of inputs through every operation of the real code under address, undefined-behaviour and contract monitors",
    "C23": "bounded exhaustive enumeration of texts, indices and range kinds on the real code, against a model of the encodings",
    "C24": "exhaustive fault injection: every call of caller-supplied code fails in turn, every stream accepts every possible number of bytes",
    "C21": "bounded exhaustive enumeration of tool inputs and argument lists, each run of the real tool compared with a model of its output",
}
NOTE = ("Exhaustive within the stated bound; the states, operations and cases of each run are in the evidence file. "
        "Trusted: the reference model in harness/ and model/, the compiler and its runtime. "
        "Behaviour outside the bound (see DESIGN.md) is not explored.")
NOTES = {
    "C01": "Equivalence with the RFC 3986 grammar is decided for every text if the code's state space exceeds the minimal automaton's by no more "
           "than the stated number of extra states, and otherwise up to the length of the suite's words. Trusted: model/rfc3986.abnf and the automaton construction.",
}

def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(runner.ROOT, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=[], not_applicable=[],
             notes="One driver (bin/check.py) builds each harness from /repo's working tree and enumerates its cases on all cores.")
    for pid in ids:
        cfg = config.CHECKS.get(pid)
        if not cfg:
            m["not_applicable"].append(dict(property=pid, reason="no check has been built yet"))
            continue
        m["checks"].append(dict(property=pid, quick_cmd="python3 bin/check.py %s quick" % pid,
                                thorough_cmd="python3 bin/check.py %s thorough" % pid,
                                evidence_file="evidence/%s.json" % pid,
                                technique=cfg.get("technique", TECHNIQUE.get(pid, ENUM)), level=cfg["level"],
                                level_note=cfg.get("note", NOTES.get(pid, NOTE))))
    with open(os.path.join(runner.ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
