#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when some check_*.go registers its id."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
have = set()
for f in glob.glob(f"{V}/mc/verifmc/check_*.go"):
    have |= set(re.findall(r'register\(&Check\{\s*ID:\s*"(C\d\d)"', open(f).read()))
TECH = {
    "seq": "explicit-state bounded model checking: every operation sequence up to a depth is run on the real code in a closed world and compared with a reference model after each step",
    "env": "stateless model checking of the real code: every environment behaviour (split, readiness order, short write, fault, clock advance) up to a bound, compared with a reference model",
    "sched": "stateless model checking of the real code: every thread interleaving up to a preemption bound under a controlled scheduler",
    "crash": "stateless model checking of the real code with exhaustive crash-point, torn-write and power-loss enumeration over recorded histories, recovering each state with the real code",
}
KIND = {}
for k, v in {
    "seq": "C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C23 C24 C25 C26 C02 C34 C37 C39",
    "env": "C18 C19 C20 C21 C22 C27 C28 C29 C30 C31 C32 C35 C41 C42",
    "sched": "C04 C06 C33 C36 C38",
    "crash": "C01 C03 C05 C40",
}.items():
    for i in v.split():
        KIND[i] = k
NOTE = ("Exhaustive within the bounds stated in DESIGN.md and in the evidence file; nothing is sampled. Trusted: the source "
        "rewriter and the simulated kernel, clock and scheduler in mc/vrt, and the reference model in mc/verifmc.")
m = {"version": 1,
     "setup_cmd": "./tools/setup.sh",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                 "evidence_file": f"evidence/{i}.json", "technique": TECH[KIND[i]], "level": "model_checking", "level_note": NOTE}
                for i in ids if i in have],
     "not_applicable": [{"property": i, "reason": "the check is not built yet"} for i in ids if i not in have],
     "notes": "No hooks in /repo: the checks rewrite a scratch copy of /repo's sources."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
