#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(PROPS):
        q = PROPS[k]
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
             "observe_at": q.get("observe_at", ["output of the macro's entry point"]), "hook_needed": None}
        if q["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
        assert len(q["title"]) <= 80, (k, len(q["title"]))
        f.write(json.dumps({"id": k, "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["over_text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
TECH = "symbolic execution of the macro's LLVM IR (own executor), obligations decided by Z3, counterexamples replayed natively"
checks, na = [], []
for k in sorted(PROPS):
    q = PROPS[k]
    if q["harnesses"]:
        checks.append({"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"./check {k} --tier thorough", "evidence_file": f"evidence/{k}.json",
                       "technique": q.get("technique", TECH), "level": q.get("level", "model_checking"),
                       "level_note": q.get("note", "Holds for every value of the symbolic inputs on every path within: " + q["bounds"]
                        + ". Outside: " + (q["outside"] or "larger inputs") + ". Trusted: rustc's IR, the executor (cross-checked natively on every run), Z3, the reference semantics in harness/src, and proc_macro2's token model in place of the compiler's.")})
    else:
        na.append({"property": k, "reason": q["na"]})
json.dump({"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harness crate compiles /repo's sources directly. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
from how import HOW
import glob
L = []
for k in sorted(PROPS):
    q = PROPS[k]
    L += [f"### {k} {q['title']}", "", q["statement"], ""]
    if not q["harnesses"]:
        L += [f"*Not applicable:* {q['na']}", ""]
        continue
    L += ["*Decided by:* " + HOW[k], "", "*Bounds:* " + q["bounds"] + ".", "", "*Outside:* " + (q["outside"] or "larger inputs") + ".", "",
          "*Why not tests:* " + q["why"], "",
          "*Harnesses:* " + ", ".join(h["name"] + (" (thorough)" if h.get("tier") else "") for h in q["harnesses"]) + "; *anchored in* " + ", ".join(sorted(set(q["files"]))) + ".", ""]
S = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "caught.json")))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    S.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
src = open(os.path.join(V, "DESIGN.in.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(src.replace("@@PROPS@@", "\n".join(L).strip()).replace("@@SEEDS@@", "\n".join(S)))
