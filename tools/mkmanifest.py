#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
    "default": "The model of this part is explored exhaustively within the stated bounds by TLC; every state or transition of it that has an input "
               "is run through the real library, plus seeded random runs, and every recorded call must be a step of the specification. "
               "Trusted: the recording driver (harness/), TLC, and the mocked JavaScript host.",
}
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
                 evidence_file=f"evidence/{i}.json", technique="TLA+ specification, TLC model checking, conformance by trace validation and model-generated cases",
                 level="model_checking", level_note=NOTE.get(i, NOTE["default"])) for i in ids],
    not_applicable=[],
    notes="One TLA+ specification (spec/Engine, Catalog, NGram, Codec, Text) decides all properties; see DESIGN.md. No hooks in /repo were needed: "
          "everything observed is public.",
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
