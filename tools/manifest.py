#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = ("explicit TLA+ specification (AesiSem), model-checked with TLC at small widths (AesiModel); bound to the code both ways: "
        "traces recorded from the real code are validated against it by TLC (AesiTrace), and behaviours TLC generates from it at real "
        "widths (AesiGen) are replayed on the real code")
NOTE = ("The property is an invariant of the exhaustively explored small-width model. Every recorded call (arguments, result, all registers) must be a "
        "step of the specification, every replayed call must have the predicted outcome. For the code, coverage is all transitions "
        "from a lattice of boundary values at 64 and 96 bits and the generated calls of the run's seed over the listed widths and builds (gcc, clang, "
        "sanitizers), not all inputs. Trusts TLC, the Java arithmetic overrides (checked against their TLA+ definitions in setup), the "
        "compilers and the driver's observation through getBlock and the sign queries.")
SPECIAL = {
 "C11": (TECH.replace("(AesiSem)", "(the canonical-zero part of AesiSem)"), NOTE),
 "C20": ("explicit TLA+ specification (AesiSem: format state before and after, sequences of insertions), model-checked with TLC at small widths; traces "
         "recorded from the real code are validated against it by TLC",
         NOTE.replace(", every replayed call must have the predicted outcome", "").replace("all transitions from a lattice of boundary values at 64 and 96 bits and ", "")),
 "C24": ("TLA+ specification 'the library is a function' (AesiPure) checked by TLC on traces of the real code: aliased, reordered, repeated and "
         "concurrent calls, and replayed behaviours of AesiGen",
         NOTE + " Concurrent schedules are those the machine produced."),
 "C25": ("TLA+ specification 'the library is a function' (AesiPure) checked by TLC on logs that hold the results computed by the compiler in constant "
         "expressions next to those computed at run time",
         NOTE.replace("all transitions from a lattice of boundary values at 64 and 96 bits and ", "") + " A call that compiles but is not a constant expression is reported too."),
}
checks = []
for p in props:
    t, n = SPECIAL.get(p["id"], (TECH, NOTE))
    checks.append({"property": p["id"], "quick_cmd": "python3 lib/check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the public interface shows the whole abstract state. Language: TLA+ with TLC. "
              "Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
