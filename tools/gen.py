#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE

TECH = ("deterministic simulation: seeded search over thread schedules, weak-memory reads and injected faults with the "
        "real code linked against a simulated threading/clock/allocation runtime")

NOTE = ("Seeded search over schedules, reads-from choices and faults of the real code (a sample, not a proof); trusts the "
        "simulated runtime in /verif/sim and the harness oracles; assumptions are listed in the evidence file. ")


def line(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", ["completion signals delivered to receivers, thread identities, "
                                                        "object lifetimes and data races, as seen by the harness"]),
                        "hook_needed": None}}


for pid, p in {**PROPS, **NOT_APPLICABLE}.items():
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (pid, "sentences", n)
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in sorted({**PROPS, **NOT_APPLICABLE}.items()):
        f.write(json.dumps(line(pid, p)) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "STDEXEC_DSIM", "enable": "no hooks were needed: the checks compile /repo's headers unmodified; every "
              "seam is the TSan instrumentation interface, pthreads, libc and libstdc++'s atomic_wait header, replaced in /verif/sim",
              "source_commits": []},
    "checks": [{"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                "thorough_cmd": "python3 check.py %s --tier thorough" % pid, "technique": TECH,
                "level": "exploration", "level_note": NOTE + p["rule"]} for pid, p in sorted(PROPS.items())],
    "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_APPLICABLE.items())],
    "notes": "VERIF_SEED selects the seed base; 'python3 check.py <ID> --replay FILE' reproduces a reported violation exactly.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sch)
print("ok", len(PROPS), "checks")
