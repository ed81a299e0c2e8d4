#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C25": "A pure function of its arguments: no schedule, time, I/O or second party is involved, so a simulator would only be an input generator.",
    "C26": "Pure arithmetic on two numbers: nothing for a simulator to schedule or to make fail.",
    "C27": "Pure formatting of one value: nothing for a simulator to schedule or to make fail.",
}
CLAIMED = sys.argv[1:] or open(os.path.join(here, "tools", "claimed")).read().split()
TECH = "deterministic simulation with fault injection (seeded schedules and faults, replayable)"
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH,
            "level": "exploration",
            "level_note": "Seeded search over " + p["quantifier"]["text"] + ". Held on everything explored; not exhaustive. Bounds, stubs and assumptions are in the evidence file and in DESIGN.md.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "go build -overlay (no change in /repo)",
        "enable": "check.sh generates instrumented copies of the current sources in a scratch directory and builds with -overlay; for the command line tool the dialer and the exit function of the standard library are overlaid as well",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh PROPERTY --replay FILE replays a failure. Findings are in known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
