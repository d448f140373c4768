#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, the properties, the planted bugs and coverage.json,
which `gen_design.py collect quick|thorough` fills from the evidence of the last runs."""
import glob, json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
cf = f"{T}/coverage.json"
cov = json.load(open(cf)) if os.path.exists(cf) else {}
if len(sys.argv) > 2 and sys.argv[1] == "collect":
    tier, src = sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else f"{V}/evidence"
    for f in sorted(glob.glob(f"{src}/C*.json")):
        e = json.load(open(f))
        if e["tier"] != tier: continue
        c = e["coverage"]
        cov.setdefault(e["property"], {})[tier] = {"wall": round(e["wall_s"], 1), "transitions": c["transitions"], "states": c["states"],
            "phases": [[p["phase"], p["executions"], p["complete"]] for p in c["phases"]]}
        cov[e["property"]]["explanation"] = c["explanation"]
        cov[e["property"]]["assumptions"] = e.get("assumptions", [])
    json.dump(cov, open(cf, "w"), indent=0, sort_keys=True)
def n(x):
    return f"{x:,}".replace(",", " ")
bugs = {}
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f)); m["id"] = f.split("/")[-2]; bugs.setdefault(m["property"], []).append(m)
o = open(f"{T}/design_head.md").read() + "\n## 2. The properties one by one\n\n"
o += ("Executions are those of one run on the 8 cores of the sandbox; *cut* marks phases that did not complete within the budget "
      "(quick 60 s, thorough 420 s per check). What a phase enumerates is said in its check's explanation; bounds are in `mc/verifmc/check_*.go`.\n\n")
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l); c = cov.get(p["id"], {})
    o += f"### {p['id']} {p['title']}\n\n*Over:* {p['quantifier']['text']}. *Tests:* {p['why_tests_cant']}\n\n"
    o += f"*Decided by:* {c.get('explanation','')}\n\n"
    if c.get("assumptions"): o += "*Assumes:* " + "; ".join(a.rstrip(".") for a in c["assumptions"]) + ".\n\n"
    seen = set()
    for t in ("quick", "thorough"):
        if t in c:
            ph = [x for x in c[t]["phases"] if t == "quick" or x[0] not in seen]
            seen |= {x[0] for x in c[t]["phases"]} if t == "quick" else set()
            if not ph: continue
            o += f"*{t.capitalize()}* ({c[t]['wall']} s, {n(c[t]['transitions'])} transitions): " + ", ".join(
                f"{a} {n(b)}{'' if k else ' (cut)'}" for a, b, k in ph) + ".\n\n"
    if p["id"] in bugs: o += "*Planted:* " + ", ".join(b["id"] for b in bugs[p["id"]]) + ".\n\n"
fx = json.load(open(f"{V}/known_findings.json"))
o += "## 3. Defects found\n\n"
o += f"The checks reported the following on the original tree; all are repaired by `fix:` commits in /repo (recorded in `known_findings.json`). Open findings: {len(fx['findings']) or 'none'}.\n\n"
for x in fx["fixed"]:
    a = x.split(" ", 3); o += f"* {a[1].split('=')[1]} {a[2]}: {a[3]}\n"
o += "\n## 4. Planted bugs\n\nEach compiles, passes the existing tests, and has a demonstration. The check named catches it (exit 1 with the property's VIOLATION line) in the quick tier.\n\n| bug | caught by | manifests with |\n|---|---|---|\n"
for i in sorted(bugs):
    for b in bugs[i]: o += f"| {b['id']} | {i} | {b['needs']} |\n"
o += "\n" + open(f"{T}/design_tail.md").read()
open(f"{V}/DESIGN.md", "w").write(o)
print(len(o), "bytes")
