#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
"C01": "Seeded search over read divisions, end-of-file styles and structure placement; assumes the reference parse (one read per buffer) is the meaning of the bytes.",
"C02": "Seeded search over map iteration orders; the sites that visit a map are found by type, so new ones are covered.",
"C03": "Seeded search over interleavings at every loop head, call and I/O point, plus histories of earlier parses; a data race on memory between two scheduling points is only seen through its effect.",
"C04": "Seeded search over hostile and damaged files and I/O faults with a step, stack and memory budget; bound is stated in steps of the rewritten loops.",
"C05": "Every operation of a run is a candidate fault point; sampled, first-fault positions are spread over all kinds.",
"C06": "Seeded histories of parses into the same directory with crashes and leftovers.",
"C07": "Seeded search over names, links and competing programs against a simulated filesystem that records every operation.",
"C08": "Handle table of the simulated filesystem, after normal, failing and fault-injected parses.",
"C09": "Refinement against the generator's object model: seeded documents of several revisions in every cross-reference form.",
"C10": "Refinement against the generator's object model over damaged cross-reference data; where no rule says which copy counts, any intact one may.",
"C11": "Crash points of a simulated incremental writer (truncation, torn and reordered blocks); oracle is the last complete revision.",
"C12": "Round trip against an independent implementation of the standard security handler.",
"C13": "Differential and absence oracle over wrong passwords and damaged encryption dictionaries.",
"C14": "Round trip against independent encoders for every filter and chain.",
"C15": "Refinement against a page model in the generator.",
"C16": "Refinement against an action model in the generator.",
"C17": "Refinement against an attachment model in the generator.",
"C18": "The error log against the list of planted abnormalities; a clean document must give none.",
"C19": "Seeded call sequences on one parser, each result against the object model; results the caller gets are overwritten by the caller.",
"C20": "Runs the real command binary, rewritten, on the simulated filesystem.",
"C21": "raw.pdf read back by an independent reader in the harness and compared with the object model.",
"C22": "Metamorphic: two spellings of one document, both also against the model.",
"C23": "Seeded histories of loads, passwords and reads on one parser against the object model.",
"C24": "Seeded in-place damage to one object or block (live or superseded copies); all other objects and their artefacts against the model.",
"C25": "Seeded cuts at any byte; complete objects, what depends on them, and what lies behind the cut against the model.",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append(dict(property=i, quick_cmd="bash check.sh " + i,
        thorough_cmd="VERIF_TIER=thorough bash check.sh " + i, evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection: seeded search over simulated runs",
        level="exploration", level_note=NOTE[i]))
m = dict(version=1, setup_cmd="bash check.sh build .build/warm", checks=checks, not_applicable=[],
  notes="No hooks in /repo: every check copies the working tree, rewrites the copy (tools in sim/) and builds it with the simulator.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
