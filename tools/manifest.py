#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC model-checks finite instances of the TLA+ specification and judges every recorded call of the real crate against it; "
        "the crate itself is observed on the behaviours exported from the models and on seeded random stimuli, not on all inputs. "
        "Trusted: the specification's reading of AMQP 1.0 (spec/*.tla), the recording harness, TLC.")
TECH = {
    "C08": "TLA+ connection model (TLC, all interleavings) + trace validation of recorded connections",
    "C09": "TLA+ connection model with bad frames (TLC) + trace validation of recorded connections",
    "C11": "TLA+ handshake model (TLC) + trace validation of recorded handshakes",
    "C21": "TLA+ connection model (TLC, all interleavings) + trace validation of recorded connections",
    "C16": "TLA+ message-history model (TLC) + trace validation of recorded histories",
    "C17": "TLA+ message-history model (TLC) + trace validation of recorded histories",
    "C19": "TLA+ specification of instants (TLC) + trace validation of conversions",
    "C22": "TLA+ model of pairs of values (TLC), every pair replayed + trace validation of recorded comparisons",
    "C23": "TLA+ model of conversions (TLC), every one replayed + trace validation of recorded conversions",
    "C20": "TLA+ map-history model (TLC) + trace validation of recorded histories",
}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
        "technique": TECH.get(p["id"], "TLA+ specification of the codec (TLC exploration, exported behaviours) + trace validation of recorded calls"),
        "level": "model_checking",
        "level_note": NOTE,
    })
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed through the public API. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
