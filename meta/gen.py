#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from the declarations in meta/*.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import decl
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in decl.PROPS:
        f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": [],
     "notes": "Static analysis only: every check re-extracts the resolved program (clang AST) from /repo's working tree and decides the property by abstract interpretation, dataflow or structural rules over it."}
for p in decl.PROPS:
    i = p["prop"]["id"]
    if p.get("na"):
        m["not_applicable"].append({"property": i, "reason": p["na"]})
    else:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

# DESIGN.md: the hand-written head, one section per property, planted bugs, defects, the hand-written tail
import glob
o = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in decl.PROPS:
    q = p["prop"]
    o += [f"### {q['id']} {q['title']}", "", q["statement"], ""]
    if p.get("na"):
        o += ["*Not applicable*: " + p["na"], ""]
        continue
    o += [f"- Decided by: {p['technique']}.", f"- Quantifies over: {q['quantifier']['text']}.", f"- Bounds and trust: {p['note']}",
          f"- Beyond the tests: {q['why_tests_cant']}.", f"- Anchors: {', '.join(q['anchors']['files'])}.", ""]
o += ["## Planted bugs", "", "Each passes the existing tests, has a demonstration, and was run against the check of its property (and is listed whether or not it is caught).", "",
      "| bug | property | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    o.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m.get('caught', 'yes')} |")
o += ["", "## Genuine defects", ""]
for l in open(os.path.join(V, "known_findings.jsonl")):
    if l.strip():
        k = json.loads(l)
        o.append("- " + (k["what"] if k["status"] == "fixed" else f"known, not repaired: {k['property']} {k['what']}"))
o += ["", open(os.path.join(HERE, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
