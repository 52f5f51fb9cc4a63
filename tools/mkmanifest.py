#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TL = "TLA+ specification model-checked with TLC; "
CTRL = ("model_checking", TL + "its behaviours replayed into the real strategy and sessions of the real program checked as traces of it",
        "Exhaustive over client scripts up to the configured number of resumes for each play of a catalogue (fixed and random plays); the real program is compared on a sample "
        "of these behaviours and on random sessions, every event of which TLC checks against the specification. Trusts Ansible itself and the recording points on StrategyBase. %s")
CHECKS = {
    "C01": CTRL[:2] + (CTRL[2] % "Liveness (every resume leads to a stop or the end) is checked on the model and as absence of hangs on the code.",),
    "C02": CTRL[:2] + (CTRL[2] % "Breakpoint resolution is computed by the specification from the playbook text.",),
    "C03": CTRL[:2] + (CTRL[2] % "",),
    "C05": CTRL[:2] + (CTRL[2] % "",),
    "C06": CTRL[:2] + (CTRL[2] % "",),
    "C07": CTRL[:2] + (CTRL[2] % "",),
    "C21": CTRL[:2] + (CTRL[2] % "Also compares the recorded task executions and exit code with a plain run of the same playbook, with in-process and with real forked workers.",),
}
EXTRA = {}
p = os.path.join(ROOT, "tools", "checks_extra.json")
if os.path.exists(p):
    EXTRA = {k: tuple(v) for k, v in json.load(open(p)).items()}
CHECKS.update(EXTRA)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "sh ./setup.sh",
     "checks": [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
                 "technique": t, "level": l, "level_note": n} for i, (l, t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": x["id"], "reason": "no check built yet"} for x in props if x["id"] not in CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
