#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA, HOOKS
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/icl_core/src/"
LOWER = ("If", "A", "An", "The", "Each", "While", "Every", "With", "When", "Waiting", "Restarting", "Its", "Adding", "Streams", "After", "All")
def three(text):
    """The statement in at most three sentences: the shortest neighbours are joined by a semicolon."""
    s = re.split(r"(?<=[.])\s+(?=[A-Za-z])", " ".join(text.split()))
    while len(s) > 3:
        i = min(range(len(s) - 1), key=lambda i: len(s[i]) + len(s[i + 1]))
        b = s.pop(i + 1); w = b.split()[0]
        s[i] = s[i][:-1] + "; " + (b[0].lower() + b[1:] if w in LOWER else b)
    return " ".join(s)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": three(p["statement"]),
             "quantifier": {"over": p["over"], "text": " ".join(p["forall"].split())},
             "why_tests_cant": " ".join(p["why"].split()),
             "anchors": {"files": [S + x for x in p["files"]],
                         "mechanism": [{"name": a, "where": S + b} for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [{"property": k, "reason": " ".join(v.split())} for k, v in NA]}
if HOOKS: m["hooks"] = HOOKS
na = set(k for k, _ in NA)
for p in P:
    if p["id"] in na: continue
    m["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded schedules, simulated time and OS): " + p["tech"],
        "level": "exploration", "level_note": " ".join((p["note"] + " Sampling over seeds: absence of a violation is evidence, not proof. Trusts the simulator's model of pthreads, semaphores, clocks, files and sockets, and sequentially consistent memory.").split())})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(NA), "not applicable")
