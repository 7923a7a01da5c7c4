#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe, state=state))

def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))

ABS = ("Abstract interpretation over the SSA of the current source: %s Trusted: the analyser's transfer functions and "
       "summaries of the standard library; single-threaded use. Anything the analysis cannot decide is reported as a violation.")

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        if p["observe"]: anchors["observe_at"] = p["observe"]
        if p["state"]: anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        anchors["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=anchors), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./check.sh", checks=[], not_applicable=sorted(NA, key=lambda x: x["property"]),
         notes="Static analysis only: one Go program (analyzer/) built offline, which loads /repo's current source on every run. No hooks in /repo.")
for p in sorted(P, key=lambda p: p["id"]):
    if p["technique"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh --quick " + p["id"],
            thorough_cmd="./check.sh --thorough " + p["id"], technique=p["technique"], level="other", level_note=p["note"]))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    j = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, j["property"], j["what_it_breaks"].replace("|", "/")))
t = "| planted change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
D = os.path.join(V, "DESIGN.md")
s = open(D).read()
a, rest = s.split("<!-- seeds -->\n")
b = rest.split("<!-- /seeds -->")[1]
with open(D, "w") as f:
    f.write(a + "<!-- seeds -->\n" + t + "<!-- /seeds -->" + b)
