#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "TLA+ model checked with TLC; TLC-generated schedules and packets replayed on the real client; recorded traces judged by the same TLA+ observer"
TECH = {
 "C11": "TLA+ model of the framing (confluence) with TLC; segmentations of one stream replayed on the real client, traces compared by the TLA+ observer",
 "C20": "TLA+ event loop model with TLC; every recorded execution must be a behaviour of that model (trace inclusion in TLC)",
}
NOTE = ("The property is an invariant of the specification for every interleaving within the bounds listed in the evidence "
        "(complete state spaces), and held on every real execution recorded: schedules generated from the specification and "
        "randomised families, judged event by event by the specification. Not a proof for the code: schedules beyond those run are not "
        "covered. Trusts TLC, the harness, loopback TCP and tokio's paused clock.")
m = dict(version=1, setup_cmd="./check setup",
         checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=TECH.get(p["id"], T), level="model_checking", level_note=NOTE)
                 for p in props],
         not_applicable=[], notes="No hooks: the checks drive the unmodified crate through its public API over loopback TCP.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
