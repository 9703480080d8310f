"""Write properties.jsonl, MANIFEST.json and DESIGN.md from props.py, DESIGN.head.md and seeded/*/meta.json."""
import os, sys, json, ast

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P


def const(fn, name):
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)


NA = []
lines, checks, sections = [], [], []
for p in sorted(P, key=lambda p: p["id"]):
    mod = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(mod):
        print("no check for", p["id"])
        continue
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe_at"], "hook_needed": None}}
    assert len(d["title"]) <= 80, d["title"]
    for f in p["files"]:
        if not os.path.exists("/repo/" + f):
            print("MISSING", p["id"], f)
    lines.append(json.dumps(d))
    checks.append({"property": p["id"], "quick_cmd": "./run.py %s --tier quick" % p["id"], "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": const(mod, "LEVEL"), "level_note": p["level_note"]})
    sections.append("### %s %s\n\n%s\n\n*Decided by* (%s, `checks/%s.py`): %s\n\n*Explored*: %s\n\n*Why beyond the tests*: %s.\n" % (
        p["id"], p["title"], p["statement"], p["technique"], p["id"].lower(), p["design"], const(mod, "RULE"), p["why"]))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: all monitors attach from outside (patched os/h5py/scipy calls, subclasses, signals)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
seeded = []
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, s, "meta.json")
    if os.path.exists(f):
        j = json.load(open(f))
        seeded.append("| %s | %s | %s | %s | %s |" % (s, j["property"], j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/"), j.get("caught_by", "?")))
head = open(os.path.join(V, "tools", "DESIGN.head.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n## Properties\n\n" + "\n".join(sections) +
    "\n## Planted bugs\n\n| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(seeded) + "\n")
